//! Simulated sinks: the "network and disk" of this library. Every call is one
//! simulated step; the tape decides what it does.

use crate::{
    baton::Baton,
    ctx::{hbytes, hstep, Ctx, SimPanic, F},
    screen::{Kind, Screen},
};
use std::{
    cell::RefCell,
    fmt,
    io::{self, ErrorKind},
    panic::resume_unwind,
    sync::{Arc, Mutex, MutexGuard},
};

/// Identity of an injected error, so that "the same error" can be checked.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum ErrSpec {
    Custom(u32, ErrorKind),
    Os(i32),
    Kind(ErrorKind),
}

#[derive(Debug)]
pub struct SimErr(pub u32);
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "simulated error {}", self.0)
    }
}
impl std::error::Error for SimErr {}

impl ErrSpec {
    pub fn make(self) -> io::Error {
        match self {
            ErrSpec::Custom(id, k) => io::Error::new(k, SimErr(id)),
            ErrSpec::Os(n) => io::Error::from_raw_os_error(n),
            ErrSpec::Kind(k) => io::Error::from(k),
        }
    }
    pub fn kind(self) -> ErrorKind {
        self.make().kind()
    }
    pub fn matches(self, e: &io::Error) -> bool {
        match self {
            ErrSpec::Custom(id, k) => {
                e.kind() == k
                    && e.get_ref()
                        .and_then(|r| r.downcast_ref::<SimErr>())
                        .is_some_and(|s| s.0 == id)
            }
            ErrSpec::Os(n) => e.raw_os_error() == Some(n),
            ErrSpec::Kind(k) => e.kind() == k && e.get_ref().is_none() && e.raw_os_error().is_none(),
        }
    }
}

const HARD: [ErrorKind; 16] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionReset,
    ErrorKind::WriteZero,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::StorageFull,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::InvalidInput,
    ErrorKind::AlreadyExists,
    ErrorKind::NotFound,
];
/// What an overriding writer may answer.
pub const OVER: [ErrorKind; 6] = [
    ErrorKind::Interrupted,
    ErrorKind::WouldBlock,
    ErrorKind::WriteZero,
    ErrorKind::BrokenPipe,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
];

pub fn gen_hard(ctx: &Ctx) -> ErrSpec {
    match ctx.choose(4) {
        0 | 1 => ErrSpec::Custom(ctx.id(), *ctx.pick(&HARD)),
        2 => ErrSpec::Os(*ctx.pick(&[5, 28, 32, 104, 9, 27, 110, 122])),
        _ => ErrSpec::Kind(*ctx.pick(&HARD)),
    }
}
pub fn gen_wouldblock(ctx: &Ctx) -> ErrSpec {
    match ctx.choose(3) {
        0 => ErrSpec::Custom(ctx.id(), ErrorKind::WouldBlock),
        1 => ErrSpec::Os(11),
        _ => ErrSpec::Kind(ErrorKind::WouldBlock),
    }
}
pub fn gen_intr(ctx: &Ctx) -> ErrSpec {
    match ctx.choose(3) {
        0 => ErrSpec::Custom(ctx.id(), ErrorKind::Interrupted),
        1 => ErrSpec::Os(4),
        _ => ErrSpec::Kind(ErrorKind::Interrupted),
    }
}

/// Fault rates per sink call, out of 256.
#[derive(Clone, Copy, Debug, Default)]
pub struct Faults {
    pub short: u8,
    pub intr: u8,
    pub wb: u8,
    pub err: u8,
    pub zero: u8,
    pub reject: u8,
    pub panic: u8,
    pub flush: u8,
    /// Accept at most this many bytes per call (0: no limit).
    pub chunk: usize,
    /// How many faults (short writes aside) may still fire.
    pub left: u32,
    /// A fault that persists: this kind, for this many further calls.
    pub storm: (u8, u32),
}

/// Which fault kinds a scenario allows.
#[derive(Clone, Copy, Default)]
pub struct Allow {
    pub transient: bool,
    pub fatal: bool,
    pub panic: bool,
    pub flush: bool,
}

impl Faults {
    pub const NONE: Faults = Faults {
        short: 0,
        intr: 0,
        wb: 0,
        err: 0,
        zero: 0,
        reject: 0,
        panic: 0,
        flush: 0,
        chunk: 0,
        left: 0,
        storm: (0, 0),
    };
    /// Swarm style: each allowed kind on or off per run, at a random rate.
    pub fn gen(ctx: &Ctx, a: Allow) -> Faults {
        ctx.span(|| {
            if ctx.chance(1, 8) {
                return Faults::NONE;
            }
            let rate = |on: bool, hi: usize| -> u8 {
                if on && ctx.chance(1, 2) {
                    [4, 10, 24, 48, 80][ctx.choose(hi)]
                } else {
                    0
                }
            };
            Faults {
                short: rate(a.transient, 5),
                intr: rate(a.transient, 5),
                wb: rate(a.fatal, 3),
                err: rate(a.fatal, 3),
                zero: rate(a.fatal, 2),
                reject: rate(a.fatal, 4),
                panic: rate(a.panic, 3),
                flush: rate(a.flush, 5),
                chunk: if a.transient && ctx.chance(1, 6) { 1 + ctx.choose(3) } else { 0 },
                left: if a.transient && ctx.chance(1, 20) { 300 } else { 1 + ctx.choose(12) as u32 },
                storm: (0, 0),
            }
        })
    }
}

/// What one sink call does.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Full,
    /// Accept about num/255 of the bytes, at least one, not all.
    Short(u8),
    Intr(ErrSpec),
    Err(ErrSpec),
    Zero,
    Panic,
}

/// Observations since the last `mark`.
#[derive(Debug, Default, Clone)]
pub struct Mark {
    pub calls: u64,
    pub empty_calls: u64,
    pub accepted: usize,
    pub intr: u32,
    /// Fatal results handed to the adaptor, in order.
    pub fatal: Vec<Fatal>,
    pub calls_after_fatal: u64,
    /// Writes whose buffer was text (not the start of an escape sequence).
    pub text_calls: u64,
    pub last: Option<Last>,
    pub flush_calls: u64,
    pub flush_err: Option<ErrSpec>,
    pub flush_ok: u64,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fatal {
    Io(ErrSpec),
    Zero,
    Reject,
    Panic,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Last {
    Ok(usize),
    Intr(ErrSpec),
    Err(ErrSpec),
}

pub struct SinkSt {
    pub id: u32,
    pub screen: Screen,
    pub bytes: Vec<u8>,
    pub f: Faults,
    /// When set, decides the calls instead of the tape; exhausted = Full.
    pub script: Option<Vec<Act>>,
    pub script_pos: usize,
    pub m: Mark,
    /// Invariant: `bytes` is a prefix of this after every call.
    pub reference: Option<Arc<Vec<u8>>>,
    /// The process dies once this many bytes were accepted.
    pub crash_at: Option<usize>,
    pub crashed: bool,
    pub total_calls: u64,
    /// Bytes that survive a crash: all that was there at the last flush.
    pub durable: usize,
    /// The most recent clone's state.
    pub forked: Option<H>,
    /// Rolling hash of every call (buffer, answer).
    pub trace: u64,
}

pub type H = Arc<Mutex<SinkSt>>;
pub fn lk(h: &H) -> MutexGuard<'_, SinkSt> {
    match h.lock() {
        Ok(g) => g,
        Err(p) => p.into_inner(),
    }
}

pub struct Sink {
    pub ctx: Ctx,
    pub h: H,
    pub baton: Option<Arc<Baton>>,
}

thread_local! {
    static NEXT_DEFAULT: RefCell<Option<Sink>> = const { RefCell::new(None) };
}
/// Adaptors that are built with `Default` get the sink set aside.
impl Default for Sink {
    fn default() -> Self {
        NEXT_DEFAULT.with(|n| n.borrow_mut().take()).expect("exactly one default sink is asked for")
    }
}
impl Sink {
    pub fn as_default<T>(self, f: impl FnOnce() -> T) -> T {
        NEXT_DEFAULT.with(|n| *n.borrow_mut() = Some(self));
        f()
    }
}

impl fmt::Debug for Sink {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sink")
    }
}

/// A clone is a fork: its own copy of everything accepted so far.
impl Clone for Sink {
    fn clone(&self) -> Sink {
        let mut s = lk(&self.h);
        self.ctx.fault(F::Fork);
        let h = Arc::new(Mutex::new(SinkSt {
                id: self.ctx.id(),
                screen: s.screen.clone(),
                bytes: s.bytes.clone(),
                f: s.f,
                script: s.script.clone(),
                script_pos: s.script_pos,
                m: Mark::default(),
                reference: s.reference.clone(),
                crash_at: s.crash_at,
                crashed: s.crashed,
                total_calls: 0,
                durable: 0,
                forked: None,
                trace: 0,
        }));
        s.forked = Some(h.clone());
        Sink {
            ctx: self.ctx.clone(),
            h,
            baton: self.baton.clone(),
        }
    }
}

impl Sink {
    pub fn new(ctx: &Ctx, kind: Kind, f: Faults) -> Sink {
        Sink {
            ctx: ctx.clone(),
            h: Arc::new(Mutex::new(SinkSt {
                id: ctx.id(),
                screen: Screen::new(kind),
                bytes: Vec::new(),
                f,
                script: None,
                script_pos: 0,
                m: Mark::default(),
                reference: None,
                crash_at: None,
                crashed: false,
                total_calls: 0,
                durable: 0,
                forked: None,
                trace: 0,
            })),
            baton: None,
        }
    }
    pub fn handle(&self) -> H {
        self.h.clone()
    }

    fn draw(&self, s: &mut SinkSt, len: usize, io: bool) -> Act {
        if let Some(sc) = &s.script {
            let a = sc.get(s.script_pos).copied().unwrap_or(Act::Full);
            s.script_pos += 1;
            return a;
        }
        if s.f.storm.1 > 0 {
            s.f.storm.1 -= 1;
            if s.f.storm.1 > 300 {
                return Act::Intr(ErrSpec::Kind(ErrorKind::Interrupted));
            }
            return self.fault_act(s.f.storm.0, io);
        }
        let f = s.f;
        let kinds: [(u8, u8); 6] = if io {
            [(0, f.short), (1, f.intr), (2, f.wb), (3, f.err), (4, f.zero), (5, f.panic)]
        } else {
            [(3, f.reject), (5, f.panic), (9, 0), (9, 0), (9, 0), (9, 0)]
        };
        let total: usize = kinds.iter().map(|k| k.1 as usize).sum();
        if total == 0 {
            return Act::Full;
        }
        let v = self.ctx.choose(256.max(total + 56));
        let base = 256.max(total + 56) - total;
        if v < base {
            return Act::Full;
        }
        let mut r = v - base;
        for (k, rate) in kinds {
            if r < rate as usize {
                if k == 0 {
                    return if len > 1 { Act::Short(self.ctx.choose(256) as u8) } else { Act::Full };
                }
                if s.f.left == 0 {
                    return Act::Full;
                }
                s.f.left -= 1;
                if k != 5 && self.ctx.chance(1, 16) {
                    let len = if k == 1 && self.ctx.chance(1, 2000) {
                        // Outlasts any count of attempts.
                        [1_100, 5_000, 70_000][self.ctx.choose(3)]
                    } else if k == 1 { [2, 7, 17, 40, 70, 140, 300][self.ctx.choose(7)] } else { 1 + self.ctx.choose(6) as u32 };
                    s.f.storm = (k, len);
                    self.ctx.fault(F::Storm);
                }
                return self.fault_act(k, io);
            }
            r -= rate as usize;
        }
        Act::Full
    }

    fn fault_act(&self, k: u8, io: bool) -> Act {
        match k {
            1 => Act::Intr(gen_intr(&self.ctx)),
            2 => Act::Err(gen_wouldblock(&self.ctx)),
            3 if io => Act::Err(gen_hard(&self.ctx)),
            3 => Act::Err(ErrSpec::Kind(ErrorKind::Other)),
            4 => Act::Zero,
            _ => Act::Panic,
        }
    }

    fn take(&self, s: &mut SinkSt, buf: &[u8]) {
        s.screen.feed(buf);
        s.bytes.extend_from_slice(buf);
        s.m.accepted += buf.len();
        if let Some(r) = &s.reference {
            let n = s.bytes.len();
            if r.len() < n || r[n - buf.len()..n] != *buf {
                self.ctx.flag(
                    "not-a-prefix",
                    format!(
                        "sink holds {:?} which is no prefix of the fault-free output {:?}",
                        tail(&s.bytes),
                        tail(&r[..r.len().min(n + 40)])
                    ),
                );
            }
        }
    }

    /// One sink call. Ok(n) or an error.
    fn call(&self, buf: &[u8], io: bool) -> Result<usize, ErrSpec> {
        if let Some(b) = &self.baton {
            b.yield_point(&self.ctx);
        }
        self.ctx.step();
        let mut s = lk(&self.h);
        let s = &mut *s;
        // A long text offered again and again would take quadratic time.
        let ends = buf.len().min(96);
        s.trace = hstep(s.trace, hbytes(&buf[..ends]) ^ hbytes(&buf[buf.len() - ends..]).rotate_left(7) ^ buf.len() as u64);
        let r = self.call2(s, buf, io);
        s.trace = hstep(
            s.trace,
            match r {
                Ok(n) => n as u64,
                Err(e) => hbytes(format!("{e:?}").as_bytes()),
            },
        );
        r
    }

    fn call2(&self, s: &mut SinkSt, buf: &[u8], io: bool) -> Result<usize, ErrSpec> {
        s.m.calls += 1;
        s.total_calls += 1;
        if !s.m.fatal.is_empty() {
            s.m.calls_after_fatal += 1;
        }
        if buf.is_empty() {
            s.m.empty_calls += 1;
            // Even those can be interrupted or refused.
            if io && s.script.is_none() && !s.crashed {
                match self.draw(s, 1, io) {
                    Act::Intr(e) => {
                        self.ctx.fault(F::Interrupted);
                        self.ctx.probe("empty_write_interrupted");
                        s.m.intr += 1;
                        s.m.last = Some(Last::Intr(e));
                        self.ctx.ev("sink", s.id as u64, 0x12, || format!("#{} empty write -> Interrupted", s.id));
                        return Err(e);
                    }
                    Act::Err(e) => {
                        self.ctx.fault(if e.kind() == ErrorKind::WouldBlock { F::WouldBlock } else { F::IoError });
                        self.ctx.probe("empty_write_refused");
                        s.m.fatal.push(Fatal::Io(e));
                        s.m.last = Some(Last::Err(e));
                        self.ctx.ev("sink", s.id as u64, 0x23, || format!("#{} empty write -> {e:?}", s.id));
                        return Err(e);
                    }
                    _ => {}
                }
            }
            s.m.last = Some(Last::Ok(0));
            return Ok(0);
        }
        let mid = !s.screen.ground();
        if !mid && !(s.screen.kind == Kind::Ansi && buf[0] == 0x1b) {
            s.m.text_calls += 1;
        }
        if s.crashed {
            return Err(ErrSpec::Kind(ErrorKind::Other));
        }
        if let Some(at) = s.crash_at {
            if s.bytes.len() + buf.len() > at {
                let k = at - s.bytes.len();
                self.take(s, &buf[..k]);
                s.crashed = true;
                self.ctx.fault(F::Crash);
                self.ctx.ev("crash", s.id as u64, at as u64, || format!("sink {} after {at} bytes", s.id));
                resume_unwind(Box::new(SimPanic(s.id)));
            }
        }
        let act = self.draw(s, buf.len(), io);
        if act != Act::Full {
            let a = match act {
                Act::Full => 0,
                Act::Short(_) => 1,
                Act::Intr(_) => 2,
                Act::Err(_) => 3,
                Act::Zero => 4,
                Act::Panic => 5,
            };
            let pen = s.screen.pen;
            let pen = (pen.fg as u64) << 16 | (pen.bg as u64) << 8 | (pen.bold as u64) << 1 | pen.faint as u64;
            self.ctx.cover(a | (s.screen.kind as u64) << 4 | pen << 8 | (mid as u64) << 40 | (buf[0] as u64) << 41);
        }
        let mut n = buf.len();
        if io && s.f.chunk > 0 {
            n = n.min(s.f.chunk);
        }
        let show = |n: usize| String::from_utf8_lossy(&buf[..n.min(60).min(buf.len())]).escape_debug().to_string();
        match act {
            Act::Short(r) if buf.len() > 1 && io => {
                n = n.min(1 + (buf.len() - 1) * r as usize / 256);
            }
            Act::Full | Act::Short(_) => {}
            Act::Intr(e) => {
                if io {
                    self.ctx.fault(F::Interrupted);
                    if mid {
                        self.ctx.probe("interrupted_inside_control_sequence");
                    }
                    s.m.intr += 1;
                    s.m.last = Some(Last::Intr(e));
                    self.ctx.ev("sink", s.id as u64, 0x11, || format!("#{} write {:?} -> Interrupted", s.id, show(60)));
                    return Err(e);
                }
            }
            Act::Err(e) => {
                self.ctx.fault(if !io {
                    F::FmtReject
                } else if e.kind() == ErrorKind::WouldBlock {
                    F::WouldBlock
                } else {
                    F::IoError
                });
                if mid {
                    self.ctx.probe("refused_inside_control_sequence");
                } else if buf[0] == 0x1b || buf[0] == b'<' {
                    self.ctx.probe("refused_at_start_of_control_sequence");
                } else {
                    self.ctx.probe("refused_text");
                }
                s.m.fatal.push(if io { Fatal::Io(e) } else { Fatal::Reject });
                s.m.last = Some(Last::Err(e));
                self.ctx.ev("sink", s.id as u64, 0x22, || format!("#{} write {:?} -> {e:?}", s.id, show(60)));
                return Err(e);
            }
            Act::Zero => {
                if io {
                    self.ctx.fault(F::Zero);
                    s.m.fatal.push(Fatal::Zero);
                    s.m.last = Some(Last::Ok(0));
                    self.ctx.ev("sink", s.id as u64, 0x33, || format!("#{} write {:?} -> Ok(0)", s.id, show(60)));
                    return Ok(0);
                }
            }
            Act::Panic => {
                self.ctx.fault(F::SinkPanic);
                s.m.fatal.push(Fatal::Panic);
                self.ctx.ev("sink", s.id as u64, 0x44, || format!("#{} write {:?} -> panic", s.id, show(60)));
                resume_unwind(Box::new(SimPanic(s.id)));
            }
        }
        if n < buf.len() {
            self.ctx.fault(F::Short);
            if mid || buf[0] == 0x1b {
                self.ctx.probe("short_write_inside_control_sequence");
            }
        }
        self.take(s, &buf[..n]);
        s.m.last = Some(Last::Ok(n));
        let h = hbytes(&buf[..n]);
        self.ctx.ev("sink", s.id as u64, h, || {
            format!("#{} write {:?} ({} bytes) -> Ok({n})", s.id, show(60), buf.len())
        });
        Ok(n)
    }
}

pub fn tail(b: &[u8]) -> String {
    let a = b.len().saturating_sub(120);
    let t = String::from_utf8_lossy(&b[a..]).escape_debug().to_string();
    if a > 0 {
        format!("..{t}")
    } else {
        t
    }
}

impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.call(buf, true).map_err(|e| e.make())
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(b) = &self.baton {
            b.yield_point(&self.ctx);
        }
        self.ctx.step();
        let mut s = lk(&self.h);
        s.m.flush_calls += 1;
        let scripted = match &s.script {
            Some(sc) => {
                let a = sc.get(s.script_pos).copied();
                s.script_pos += 1;
                s.trace = hstep(s.trace, 0xf1);
                match a {
                    Some(Act::Intr(e) | Act::Err(e)) => Some(e),
                    _ => None,
                }
            }
            None => None,
        };
        let fail = scripted.is_some() || s.f.flush > 0 && self.ctx.chance(s.f.flush as usize * 2, 256);
        if fail {
            let e = scripted.unwrap_or_else(|| match self.ctx.choose(3) {
                0 => gen_hard(&self.ctx),
                1 => gen_intr(&self.ctx),
                _ => gen_wouldblock(&self.ctx),
            });
            self.ctx.fault(F::FlushError);
            s.m.flush_err = Some(e);
            let id = s.id;
            self.ctx.ev("flush", id as u64, 1, || format!("#{id} -> {e:?}"));
            return Err(e.make());
        }
        s.m.flush_ok += 1;
        s.durable = s.bytes.len();
        let id = s.id;
        self.ctx.ev("flush", id as u64, 0, || format!("#{id} -> Ok"));
        Ok(())
    }
}

impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.call(s.as_bytes(), false).map(|_| ()).map_err(|_| fmt::Error)
    }
}
