//! Clients sharing one adaptor over a faulting sink. After every call the
//! oracle's screen is compared with the reference model.

use crate::{
    ctx::{Ctx, F, R},
    dut::{gen_bytes, guard, Dut, Op, Out, Want, DK, FLAVORS, FORMS},
    screen::{show, Cell, Vis, MS},
    sink::{lk, Allow, Fatal, Faults, Last, Sink, H},
    tree::{gen_text, gen_tree, Env, Node, Palette, Re, Stop, TreeCfg},
};
use std::{collections::VecDeque, io::ErrorKind, sync::Arc};

#[derive(Clone, Copy)]
pub struct Cfg {
    pub kinds: &'static [DK],
    pub allow: Allow,
    pub tree: TreeCfg,
    pub max_ops: usize,
    pub sessions: usize,
    /// Draw fresh faults for finishing.
    pub finish_faults: bool,
    /// Weight of formatted writes out of 8.
    pub fmt_w: usize,
}

pub struct Eng<'a> {
    pub ctx: &'a Ctx,
    pub kind: DK,
    pub h: H,
    pub dut: Option<Dut>,
    pub cfg: Cfg,
    pub pal: Palette,
    /// The style a cut escape sequence was switching to.
    retry: Option<MS>,
    dead: bool,
}

pub fn gen_op(ctx: &Ctx, k: DK, cfg: &Cfg, pal: &Palette) -> Op {
    if ctx.chance(cfg.fmt_w, 8) {
        let form = ctx.choose(FORMS) as u8;
        let tree = gen_tree(ctx, cfg.tree, pal);
        return Op::Fmt(tree, form);
    }
    match ctx.choose(8) {
        0 | 1 | 2 => Op::All(gen_bytes(ctx, k), pal.style(ctx)),
        3 | 4 => Op::Write(gen_bytes(ctx, k), pal.style(ctx)),
        5 => Op::Char(crate::tree::gen_char(ctx), pal.style(ctx)),
        6 => Op::Loop(gen_bytes(ctx, k), pal.style(ctx)),
        _ if k.io() => Op::Flush,
        _ => Op::All(Vec::new(), pal.style(ctx)),
    }
}

pub fn op_code(op: &Op) -> u64 {
    match op {
        Op::Write(b, s) => 1 | s.code() << 8 | (b.len() as u64) << 40,
        Op::All(b, s) => 2 | s.code() << 8 | (b.len() as u64) << 40,
        Op::Char(c, s) => 3 | s.code() << 8 | (*c as u64) << 40,
        Op::Loop(b, s) => 4 | s.code() << 8 | (b.len() as u64) << 40,
        Op::Fmt(n, f) => 5 | (*f as u64) << 8 | n.code() << 16,
        Op::Flush => 6,
    }
}

pub fn cells_of(k: DK, w: &Want) -> Vec<Cell> {
    w.bytes
        .iter()
        .zip(&w.styles)
        .map(|(&byte, s)| Cell {
            byte,
            vis: if k.styled() { s.vis() } else { Vis::default() },
        })
        .collect()
}

/// Checks that `out` reports `fatal` as it was.
pub fn same_failure(out: &Out, fatal: Fatal) -> bool {
    match (out, fatal) {
        (Out::Io(e), Fatal::Io(s)) => s.matches(e),
        (Out::Io(e), Fatal::Zero) => e.kind() == ErrorKind::WriteZero,
        (Out::Fmt, Fatal::Reject) => true,
        (Out::Panic, Fatal::Panic) => true,
        _ => false,
    }
}

impl Eng<'_> {
    /// Runs one operation and checks everything that can be said about it.
    pub fn exec(&mut self, op: &Op, env: &Env<'_>) -> R<Out> {
        let (ctx, kind) = (self.ctx, self.kind);
        let flav = ctx.choose(FLAVORS) as u8;
        let want = op.want();
        let cells = cells_of(kind, &want);
        let (base, bytes0) = {
            let mut s = lk(&self.h);
            s.m = Default::default();
            (s.screen.cells.len(), s.bytes.len())
        };
        ctx.ev("op", op_code(op), flav as u64, || format!("{} via flavor {flav}", op.show()));
        let out = self.dut.as_mut().unwrap().op(op, flav, env)?;
        ctx.ev("ret", 0, matches!(out, Out::Done | Out::N(_)) as u64, || out.show());
        if let Some(v) = ctx.st().violation.take() {
            return Err(v);
        }
        let s = lk(&self.h);
        let (m, scr) = (&s.m, &s.screen);
        if let Some(b) = &scr.bad {
            ensure!(false, "malformed-output", "{b}; the operation was {}; the sink holds {:?}", op.show(), crate::sink::tail(&s.bytes));
        }
        let new = &scr.cells[base..];
        let n = new.len();
        ensure!(
            n <= cells.len() && new == &cells[..n],
            "wrong-output",
            "{:?}: {} showed {} but should show {} (result {})",
            kind, op.show(), show(new), show(&cells), out.show()
        );
        // Nothing is sent once a sink call failed, and none is repeated
        // unless it was interrupted.
        let swallow = self.cfg.tree.swallow;
        ensure!(
            swallow || m.calls_after_fatal == 0,
            "continues-after-failure",
            "{:?}: {} made {} more sink calls after {:?}",
            kind, op.show(), m.calls_after_fatal, m.fatal
        );
        let over = 128 * (want.pieces + 2) + 8 * cells.len();
        ensure!(
            m.accepted <= over && m.empty_calls as usize <= over,
            "no-progress",
            "{:?}: {} handed over {} bytes and {} empty buffers for {} bytes of text",
            kind, op.show(), m.accepted, m.empty_calls, cells.len()
        );
        let failed = m.fatal.first().copied();
        match (op, &out) {
            (Op::Flush, _) => {
                ensure!(n == 0, "wrong-output", "flush showed {}", show(new));
                match (&out, m.flush_err) {
                    (Out::Done, None) => {}
                    (Out::Io(e), Some(x)) if x.matches(e) => {}
                    (o, x) => ensure!(!kind.io(), "wrong-result", "{kind:?}: flush returned {} but the sink's flush gave {x:?}", o.show()),
                }
                ensure!(!kind.io() || m.flush_calls == 1, "wrong-result", "{kind:?}: flush flushed the sink {} times", m.flush_calls);
                ensure!(m.calls == 0, "wrong-output", "{kind:?}: flush wrote {} bytes", s.bytes.len() - bytes0);
            }
            (Op::Write(b, st), _) if kind.io() => {
                ensure!(m.text_calls <= 1, "more-than-one-attempt", "{kind:?}: one write handed text to the sink {} times", m.text_calls);
                match &out {
                    Out::N(k) => {
                        ensure!(*k == n, "wrong-result", "{kind:?}: write returned Ok({k}) but {n} bytes were shown");
                        ensure!(
                            b.is_empty() || m.last == Some(Last::Ok(*k)),
                            "wrong-result",
                            "{kind:?}: write returned Ok({k}) but the sink's last answer was {:?}", m.last
                        );
                    }
                    Out::Io(e) => {
                        ensure!(n == 0, "wrong-result", "{kind:?}: write returned an error but {} was shown", show(new));
                        let same = match m.last {
                            Some(Last::Intr(x)) | Some(Last::Err(x)) => x.matches(e),
                            Some(Last::Ok(0)) => failed == Some(Fatal::Zero) && e.kind() == ErrorKind::WriteZero && kind == DK::IoAnsi && m.text_calls == 0,
                            _ => false,
                        };
                        ensure!(same, "wrong-result", "{kind:?}: write returned {} but the sink's last answer was {:?}", out.show(), m.last);
                        if failed.is_none() {
                            ensure!(
                                e.kind() == ErrorKind::Interrupted && scr.ground() && (kind == DK::IoPlain || scr.pen == st.vis()),
                                "interrupted-mid-switch",
                                "{kind:?}: write reported {} before the style {st:?} was in force", out.show()
                            );
                        }
                    }
                    Out::Panic => ensure!(failed == Some(Fatal::Panic), "wrong-result", "panic without a cause"),
                    o => ensure!(false, "wrong-result", "{}", o.show()),
                }
            }
            (_, Out::Done) => {
                ensure!(failed.is_none() || swallow, "failure-not-reported", "{kind:?}: {} returned Ok although the sink answered {failed:?}", op.show());
                ensure!(want.stop.is_none(), "failure-not-reported", "{kind:?}: {} returned Ok although a value failed ({:?})", op.show(), want.stop);
                ensure!(n == cells.len(), "lost-output", "{kind:?}: {} returned Ok but showed only {} of {}", op.show(), show(new), show(&cells));
            }
            (_, Out::N(_)) => ensure!(false, "wrong-result", "unexpected count"),
            (_, o) => match (failed, want.stop) {
                (Some(f), _) => {
                    ensure!(same_failure(o, f), "wrong-error", "{kind:?}: {} returned {} although the first failure was {f:?}", op.show(), o.show());
                }
                (None, Some(st)) => {
                    ensure!((st == Stop::Panic) == matches!(o, Out::Panic), "wrong-error", "{kind:?}: {} returned {} although the value stopped with {st:?}", op.show(), o.show());
                    ensure!(n == cells.len(), "lost-output", "{kind:?}: {} showed only {} before the value failed, not {}", op.show(), show(new), show(&cells));
                }
                (None, None) => ensure!(false, "spurious-error", "{kind:?}: {} returned {} although nothing failed", op.show(), o.show()),
            },
        }
        if cells.is_empty() && kind.io() && !matches!(op, Op::Write(..) | Op::Flush) {
            ensure!(m.calls == 0, "wrong-output", "{kind:?}: {} has no text but made {} sink calls", op.show(), m.calls);
        }
        if cells.is_empty() && !kind.io() {
            ensure!(m.accepted == 0, "wrong-output", "{kind:?}: {} has no text but wrote {:?}", op.show(), crate::sink::tail(&s.bytes[bytes0..]));
        }
        self.retry = None;
        if !scr.ground() {
            ensure!(failed.is_some(), "malformed-output", "{kind:?}: {} left an unfinished sequence: {:?}", op.show(), crate::sink::tail(&s.bytes));
            ctx.probe("sequence_cut_by_failure");
            self.retry = match op {
                Op::Write(_, st) | Op::All(_, st) | Op::Char(_, st) | Op::Loop(_, st) => Some(*st),
                _ => want.styles.get(n).copied(),
            };
            if kind == DK::Html || self.retry.is_none() {
                self.dead = true;
            }
        } else if failed.is_some() {
            ctx.probe("failure_between_sequences");
        }
        if let Some(st) = want.styles.first() {
            ctx.cover(1 << 60 | st.code() | (kind as u64) << 24 | (matches!(out, Out::Done | Out::N(_)) as u64) << 28);
        }
        drop(s);
        Ok(out)
    }

    /// Retries in the style being switched to until the sequence is repaired.
    fn recover(&mut self, env: &Env<'_>) -> R {
        let mut tries = 0;
        while let Some(st) = self.retry {
            if self.dead {
                return Ok(());
            }
            tries += 1;
            if tries > 4 {
                lk(&self.h).f = Faults::NONE;
            }
            let ctx = self.ctx;
            let op = ctx.span(|| {
                let mut t = gen_text(ctx);
                if t.is_empty() {
                    t.push('r');
                }
                match ctx.choose(4) {
                    0 => Op::All(t.into_bytes(), st),
                    1 => Op::Write(t.into_bytes(), st),
                    2 => Op::Loop(t.into_bytes(), st),
                    _ => Op::Fmt(Node::Abs(t, st), 0),
                }
            });
            let out = self.exec(&op, env)?;
            ensure!(
                self.retry.is_none() || !matches!(out, Out::Done | Out::N(_)),
                "not-recovered",
                "{:?}: retrying in style {st:?} succeeded but the output is still inside a sequence", self.kind
            );
            if self.retry.is_none() {
                ctx.probe("recovered_by_retry");
            }
        }
        Ok(())
    }

    /// The same few writes over and over, without faults: outlives any counter.
    fn burst(&mut self, env: &Env<'_>) -> R {
        let (ctx, kind) = (self.ctx, self.kind);
        let f = std::mem::replace(&mut lk(&self.h).f, Faults::NONE);
        let ops: Vec<(Op, Vec<Cell>)> = (0..2 + ctx.choose(3))
            .map(|_| {
                let (c, s) = (ctx.choose(26) as u8 + b'a', self.pal.style(ctx));
                let op = match ctx.choose(4) {
                    0 => Op::Char(c as char, s),
                    1 => Op::Loop(vec![c], s),
                    2 => Op::Fmt(Node::With(Re::Full(s), vec![Node::Text((c as char).to_string())]), 0),
                    _ => Op::All(vec![c, b'<'], s),
                };
                let cells = cells_of(kind, &op.want());
                (op, cells)
            })
            .collect();
        let n = [300, 1100, 5000, 70_000][ctx.choose(4)];
        ctx.probe("burst");
        for i in 0..n {
            ctx.refuel();
            for (op, cells) in &ops {
                let base = {
                    let mut s = lk(&self.h);
                    s.m = Default::default();
                    s.screen.cells.len()
                };
                let out = self.dut.as_mut().unwrap().op(op, 0, env)?;
                let s = lk(&self.h);
                ensure!(matches!(out, Out::Done), "spurious-error", "{kind:?}: {} returned {} in round {i} although nothing failed", op.show(), out.show());
                ensure!(
                    s.screen.bad.is_none() && s.screen.ground() && s.screen.cells[base..] == cells[..],
                    "wrong-output",
                    "{kind:?}: {} showed {} in round {i} but should show {}", op.show(), show(&s.screen.cells[base..]), show(cells)
                );
            }
        }
        if ctx.chance(1, 2) {
            // One value with very many parts.
            let (a, b) = (self.pal.style(ctx), self.pal.style(ctx));
            let k = [300, 1100, 4000, 12_000][ctx.choose(4)];
            let segs = (0..k).map(|i| (((b'a' + (i % 26) as u8) as char).to_string(), if i % 2 == 0 { a } else { b })).collect();
            let op = guard(|| Op::Fmt(Node::Pre(crate::tree::PreStr::new(segs)), 0))?;
            ensure!(op.is_some(), "panic", "{k} writes to an attributed string panicked");
            let op = op.unwrap();
            let cells = cells_of(kind, &op.want());
            ctx.refuel();
            let base = {
                let mut s = lk(&self.h);
                s.m = Default::default();
                s.screen.cells.len()
            };
            let out = self.dut.as_mut().unwrap().op(&op, 0, env)?;
            let s = lk(&self.h);
            ensure!(matches!(out, Out::Done), "spurious-error", "{kind:?}: an attributed string of {k} parts returned {} although nothing failed", out.show());
            ensure!(s.screen.bad.is_none() && s.screen.ground() && s.screen.cells[base..] == cells[..], "wrong-output", "{kind:?}: an attributed string of {k} parts was not shown as recorded");
            ctx.probe("many_parts");
        }
        if ctx.chance(1, 2) {
            // One text longer than any limit somebody may have thought of.
            let k = [70_000, 140_000, 600_000, 1_100_000, 2_200_000][ctx.choose(5)];
            let mut t = "0123456789 lorem ipsum dolor".repeat(k / 28);
            t.push(crate::tree::gen_char(ctx));
            t.push('<');
            let st = self.pal.style(ctx);
            let op = match ctx.choose(3) {
                0 => Op::All(t.into_bytes(), st),
                1 => Op::Loop(t.into_bytes(), st),
                _ => Op::Fmt(Node::With(Re::Full(st), vec![Node::Text(t)]), 0),
            };
            let cells = cells_of(kind, &op.want());
            ctx.refuel_for(k);
            let base = {
                let mut s = lk(&self.h);
                s.m = Default::default();
                s.screen.cells.len()
            };
            let out = self.dut.as_mut().unwrap().op(&op, 0, env)?;
            ctx.refuel();
            let s = lk(&self.h);
            ensure!(matches!(out, Out::Done), "spurious-error", "{kind:?}: a text of {k} bytes returned {} although nothing failed", out.show());
            ensure!(s.screen.bad.is_none() && s.screen.ground() && s.screen.cells[base..] == cells[..], "wrong-output", "{kind:?}: a text of {k} bytes was not shown as written");
            ctx.probe("giant_text");
        }
        lk(&self.h).f = f;
        Ok(())
    }

    /// One session: clients take turns, then the adaptor is finished.
    fn session(&mut self, sink: Sink, env: &Env<'_>) -> R<Option<Sink>> {
        let (ctx, cfg) = (self.ctx, self.cfg);
        let kind = self.kind;
        self.dut = Some(Dut::new(kind, sink, ctx.choose(3) as u8));
        let clients = 1 + ctx.choose(4);
        let mut todo: Vec<VecDeque<Op>> = (0..clients).map(|_| VecDeque::new()).collect();
        let mut ops = ctx.small(1, cfg.max_ops);
        if ctx.chance(1, 200) {
            // A long-lived adaptor.
            ctx.probe("long_session");
            ops = 270 + ctx.choose(400);
        }
        let mut last = 0;
        let burst = if ctx.chance(1, 20_000) { Some(ctx.choose(ops)) } else { None };
        for at in 0..ops {
            if burst == Some(at) {
                self.burst(env)?;
            }
            ctx.span(|| {
                let c = ctx.choose(clients);
                if c != last {
                    ctx.probe("client_switch");
                    last = c;
                }
                ctx.refuel();
                ctx.ev("client", c as u64, 0, || format!("client {c}"));
                let op = match todo[c].pop_front() {
                    Some(op) => op,
                    None => gen_op(ctx, kind, &cfg, &self.pal),
                };
                let out = self.exec(&op, env)?;
                self.recover(env)?;
                // What a client does about it: carry on with the rest, retry,
                // or give up.
                if let Op::Write(b, s) = op {
                    match out {
                        Out::N(n) if n < b.len() && ctx.chance(3, 4) => todo[c].push_front(Op::Write(b[n..].to_vec(), s)),
                        Out::Io(_) if ctx.chance(1, 2) => {
                            ctx.probe("client_retries");
                            todo[c].push_front(Op::Write(b, s))
                        }
                        _ => {}
                    }
                }
                Ok(())
            })?;
            if self.dead {
                return Ok(None);
            }
        }
        if ctx.chance(1, 16) {
            ctx.fault(F::Abandon);
            return Ok(None);
        }
        if cfg.finish_faults {
            let f = Faults::gen(ctx, cfg.allow);
            lk(&self.h).f = f;
        }
        self.finish()
    }

    pub fn finish(&mut self) -> R<Option<Sink>> {
        let (ctx, kind) = (self.ctx, self.kind);
        let (base, bytes0, plain0) = {
            let mut s = lk(&self.h);
            s.m = Default::default();
            (s.screen.cells.len(), s.bytes.len(), s.screen.pen == Vis::default() && s.screen.depth() == 0)
        };
        let dut = self.dut.take().unwrap();
        ctx.ev("op", 7, 0, || "finish".into());
        let r = dut.finish()?;
        if let Some(v) = ctx.st().violation.take() {
            return Err(v);
        }
        let mut s = lk(&self.h);
        if let Some(b) = &s.screen.bad {
            ensure!(false, "malformed-output", "finish: {b}; the sink holds {:?}", crate::sink::tail(&s.bytes));
        }
        ensure!(s.screen.cells.len() == base, "wrong-output", "{kind:?}: finish showed {}", show(&s.screen.cells[base..]));
        ensure!(s.m.calls_after_fatal == 0, "continues-after-failure", "{kind:?}: finish carried on after {:?}", s.m.fatal);
        if matches!(kind, DK::UserIo | DK::UserFmt) {
            // No reset to make: their style is noted per call.
            s.screen.pen = Vis::default();
        } else if plain0 {
            ensure!(s.bytes.len() == bytes0, "wrong-output", "{kind:?}: finishing output already in the default style wrote {:?}", crate::sink::tail(&s.bytes[bytes0..]));
        }
        ensure!(s.m.accepted <= 64, "wrong-output", "finish wrote {} bytes", s.m.accepted);
        match r {
            Ok(sink) => {
                ctx.ev("ret", 7, 1, || "finish Ok".into());
                ensure!(s.m.fatal.is_empty(), "failure-not-reported", "{kind:?}: finish returned Ok although the sink answered {:?}", s.m.fatal);
                ensure!(
                    s.screen.ground() && s.screen.pen == Vis::default() && s.screen.depth() == 0,
                    "not-reset",
                    "{kind:?}: after finish the sink is left in {:?} ({} open spans): {:?}", s.screen.pen, s.screen.depth(), crate::sink::tail(&s.bytes)
                );
                ensure!(Arc::ptr_eq(&sink.h, &self.h), "wrong-sink", "{kind:?}: finish returned another sink");
                ctx.probe("finished");
                drop(s);
                Ok(Some(sink))
            }
            Err(o) => {
                ctx.ev("ret", 7, 0, || format!("finish {}", o.show()));
                let f = s.m.fatal.first().copied();
                ensure!(
                    f.is_some_and(|f| same_failure(&o, f)),
                    "wrong-error",
                    "{kind:?}: finish returned {} although the sink's failure was {f:?}", o.show()
                );
                ctx.probe("finish_refused");
                Ok(None)
            }
        }
    }
}

pub fn run(ctx: &Ctx, cfg: Cfg) -> R {
    let kind = *ctx.pick(cfg.kinds);
    let pal = Palette::gen(ctx);
    let f = Faults::gen(ctx, cfg.allow);
    let sink = Sink::new(ctx, kind.screen(), f);
    let mut e = Eng {
        ctx,
        kind,
        h: sink.handle(),
        dut: None,
        cfg,
        pal,
        retry: None,
        dead: false,
    };
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    let sessions = 1 + if cfg.sessions > 1 { ctx.choose(cfg.sessions) } else { 0 };
    let mut sink = sink;
    for _ in 0..sessions {
        let r = ctx.span(|| e.session(sink, &env))?;
        match r {
            Some(s) => sink = s,
            None => return Ok(()),
        }
        if ctx.chance(1, 2) {
            // Raw text straight to the returned sink must be unstyled.
            let f = std::mem::replace(&mut lk(&e.h).f, Faults::NONE);
            let base = lk(&e.h).screen.cells.len();
            std::io::Write::write_all(&mut sink, b"raw").unwrap();
            let want: Vec<Cell> = b"raw".iter().map(|&byte| Cell { byte, vis: Vis::default() }).collect();
            let mut s = lk(&e.h);
            ensure!(s.screen.cells[base..] == want, "not-reset", "raw text after finish showed as {}", show(&s.screen.cells[base..]));
            s.f = f;
            ctx.probe("raw_text_after_finish");
        }
    }
    Ok(())
}
