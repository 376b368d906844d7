//! C08 (prefix at any crash point), C15 (references), C16 (durability),
//! C19 (isolation): differential runs of the real code.

use crate::{
    baton::Baton,
    ctx::{hbytes, hstep, Ctx, F, R},
    dut::{guard, Dut, Op, Out, DK, FLAVORS},
    engine::{gen_op, op_code, Cfg},
    screen::{show, Screen, MS},
    sink::{gen_hard, gen_intr, gen_wouldblock, lk, tail, Act, Allow, Fatal, Faults, Sink, H},
    tree::{Env, Palette, TreeCfg},
};
use std::{cell::RefCell, fmt, io, sync::Arc};

fn check_flag(ctx: &Ctx) -> R {
    match ctx.st().violation.take() {
        Some(v) => Err(v),
        None => Ok(()),
    }
}

const FIVE: [DK; 5] = [DK::IoAnsi, DK::Ansi, DK::Html, DK::IoPlain, DK::Plain];

fn cfg(kinds: &'static [DK], tree: TreeCfg, fmt_w: usize) -> Cfg {
    Cfg { kinds, allow: Allow::default(), tree, max_ops: 0, sessions: 1, finish_faults: false, fmt_w }
}

/// C08.
pub fn c08(ctx: &Ctx) -> R {
    let kind = *ctx.pick(&FIVE);
    let pal = Palette::gen(ctx);
    let tree = TreeCfg { fail: ctx.chance(1, 3), panic: ctx.chance(1, 6), ..TreeCfg::default() };
    let n = ctx.small(1, 10);
    let c = cfg(&FIVE, tree, 4);
    let ops: Vec<Op> = (0..n)
        .map(|_| {
            ctx.span(|| match gen_op(ctx, kind, &c, &pal) {
                // Whole-buffer operations only.
                Op::Write(b, s) => Op::Loop(b, s),
                op => op,
            })
        })
        .collect();
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    // Fault-free: the reference.
    let a = Sink::new(ctx, kind.screen(), Faults::NONE);
    let ha = a.handle();
    let mut d = Dut::new(kind, a, 0);
    let mut outs = Vec::new();
    for op in &ops {
        outs.push(d.op(op, 0, &env)?.show());
    }
    let fin = d.finish()?;
    ensure!(fin.is_ok(), "wrong-result", "finish failed on a healthy sink");
    let reference = Arc::new(lk(&ha).bytes.clone());
    ctx.ev("reference", reference.len() as u64, hbytes(&reference), || tail(&reference));
    // The same program on a faulty sink.
    let crash = ctx.chance(1, 2);
    let f = Faults::gen(ctx, Allow { transient: true, fatal: !crash, panic: !crash && ctx.chance(1, 4), flush: false });
    let b = Sink::new(ctx, kind.screen(), f);
    let hb = b.handle();
    {
        let mut s = lk(&hb);
        s.reference = Some(reference.clone());
        if crash {
            s.crash_at = Some(ctx.choose(reference.len() + 1));
        }
    }
    let mut d = Dut::new(kind, b, 1);
    for (i, op) in ops.iter().enumerate() {
        let r = ctx.span(|| -> R<bool> {
            lk(&hb).m = Default::default();
            let flav = ctx.choose(FLAVORS) as u8;
            ctx.ev("op", op_code(op), flav as u64, || op.show());
            let out = d.op(op, flav, &env)?;
            check_flag(ctx)?;
            let s = lk(&hb);
            if s.crashed || !s.m.fatal.is_empty() {
                return Ok(true);
            }
            ensure!(
                out.show() == outs[i],
                "stutter-changes-result",
                "{kind:?}: {} gave {} on a healthy sink and {} on one that only stuttered", op.show(), outs[i], out.show()
            );
            Ok(false)
        })?;
        if r {
            let s = lk(&hb);
            ctx.cover(s.bytes.len() as u64 | (kind as u64) << 32 | (s.screen.ground() as u64) << 40);
            ctx.probe_if(!s.screen.ground(), "stopped_inside_a_sequence");
            drop(s);
            // Nothing more may come out of dropping it after the crash.
            let at = lk(&hb).bytes.len();
            if lk(&hb).crashed {
                std::mem::forget(d);
            } else {
                guard(|| drop(d))?;
                check_flag(ctx)?;
            }
            let _ = at;
            return Ok(());
        }
    }
    lk(&hb).m = Default::default();
    let r = d.finish()?;
    check_flag(ctx)?;
    let s = lk(&hb);
    if s.crashed || !s.m.fatal.is_empty() {
        return Ok(());
    }
    ensure!(r.is_ok(), "spurious-error", "{kind:?}: finish failed although the sink only stuttered");
    ensure!(
        s.bytes == *reference,
        "lost-output",
        "{kind:?}: every operation succeeded but the sink holds {:?} instead of {:?}", tail(&s.bytes), tail(&reference)
    );
    ctx.probe("complete_despite_stutter");
    Ok(())
}

pub fn gen_script(ctx: &Ctx, n: usize, allow: Allow) -> Vec<Act> {
    let f = Faults::gen(ctx, allow);
    let mut left = f.left;
    let mut script: Vec<Act> = (0..n)
        .map(|_| {
            let v = ctx.choose(512);
            let mut r = v.saturating_sub(512 - [f.short, f.intr, f.wb, f.err, f.zero, f.reject, f.panic].iter().map(|&x| x as usize).sum::<usize>().min(512));
            if r == 0 {
                return Act::Full;
            }
            r -= 1;
            for (k, rate) in [f.short, f.intr, f.wb, f.err.max(f.reject), f.zero, f.panic].into_iter().enumerate() {
                if r < rate as usize {
                    if k > 1 {
                        if left == 0 {
                            return Act::Full;
                        }
                        left -= 1;
                    }
                    return match k {
                        0 => Act::Short(ctx.choose(256) as u8),
                        1 => Act::Intr(gen_intr(ctx)),
                        2 => Act::Err(gen_wouldblock(ctx)),
                        3 => Act::Err(gen_hard(ctx)),
                        4 => Act::Zero,
                        _ => Act::Panic,
                    };
                }
                r -= rate as usize;
            }
            Act::Full
        })
        .collect();
    if allow.transient && ctx.chance(1, 10) {
        // One interruption that persists.
        let at = ctx.choose(n / 2);
        let k = [3, 9, 20, 70][ctx.choose(4)];
        script.splice(at..at, vec![Act::Intr(gen_intr(ctx)); k]);
    }
    script
}

pub fn scripted(ctx: &Ctx, kind: DK, script: &[Act]) -> Sink {
    let s = Sink::new(ctx, kind.screen(), Faults::NONE);
    lk(&s.h).script = Some(script.to_vec());
    s
}

/// Everything observable about a client: results, and every sink call.
#[derive(PartialEq, Clone, Debug, Default)]
pub struct Trace {
    pub outs: Vec<String>,
    pub bytes: Vec<u8>,
    pub calls: u64,
    pub flushes: u64,
    pub finish: String,
}
impl Trace {
    pub fn diff(&self, o: &Trace) -> String {
        for (i, (a, b)) in self.outs.iter().zip(&o.outs).enumerate() {
            if a != b {
                return format!("operation {i} returned {a} vs {b}");
            }
        }
        if self.bytes != o.bytes {
            return format!("the sinks hold {:?} vs {:?}", tail(&self.bytes), tail(&o.bytes));
        }
        if self.finish != o.finish {
            return format!("finish gave {} vs {}", self.finish, o.finish);
        }
        "the sequence of sink calls differs".into()
    }
}

fn fin(d: Dut, h: &H, outs: Vec<String>) -> R<Trace> {
    let finish = match d.finish()? {
        Ok(_) => "Ok".to_owned(),
        Err(o) => o.show(),
    };
    let s = lk(h);
    Ok(Trace { outs, bytes: s.bytes.clone(), calls: s.trace, flushes: s.m.flush_calls, finish })
}

/// A writer that overrides every method it can and logs which one is used.
#[derive(Default)]
struct Over {
    log: Vec<String>,
    fail_at: Option<usize>,
    /// What a failing method answers instead of its usual error.
    kind: Option<io::ErrorKind>,
    deep: bool,
}
impl Over {
    fn note(&mut self, what: &str, t: &[u8], s: Option<stylish::Style>) -> bool {
        self.log.push(format!("{what} {:?} {:?}", tail(t), s.map(MS::of)));
        self.fail_at != Some(self.log.len() - 1)
    }
}
impl stylish::Write for Over {
    fn write_str(&mut self, s: &str, style: stylish::Style) -> fmt::Result {
        if self.note("write_str", s.as_bytes(), Some(style)) { Ok(()) } else { Err(fmt::Error) }
    }
    fn write_char(&mut self, c: char, style: stylish::Style) -> fmt::Result {
        if self.note("write_char", c.to_string().as_bytes(), Some(style)) { Ok(()) } else { Err(fmt::Error) }
    }
    fn write_fmt(&mut self, args: stylish::Arguments<'_>) -> fmt::Result {
        if !self.note("write_fmt", b"", None) {
            return Err(fmt::Error);
        }
        if self.deep {
            return Ok(());
        }
        struct In<'a>(&'a mut Over);
        impl stylish::Write for In<'_> {
            fn write_str(&mut self, s: &str, style: stylish::Style) -> fmt::Result {
                self.0.write_str(s, style)
            }
        }
        stylish::Write::write_fmt(&mut In(self), args)
    }
}
impl stylish::io::Write for Over {
    fn write(&mut self, b: &[u8], style: stylish::Style) -> io::Result<usize> {
        if self.note("write", b, Some(style)) { Ok(b.len().min(3)) } else { Err(self.kind.unwrap_or(io::ErrorKind::TimedOut).into()) }
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.note("flush", b"", None) { Ok(()) } else { Err(self.kind.unwrap_or(io::ErrorKind::AddrInUse).into()) }
    }
    fn write_all(&mut self, b: &[u8], style: stylish::Style) -> io::Result<()> {
        if self.note("write_all", b, Some(style)) { Ok(()) } else { Err(self.kind.unwrap_or(io::ErrorKind::NotConnected).into()) }
    }
    fn write_fmt(&mut self, args: stylish::Arguments<'_>) -> io::Result<()> {
        if !self.note("write_fmt", b"", None) {
            return Err(self.kind.unwrap_or(io::ErrorKind::AddrNotAvailable).into());
        }
        if self.deep {
            return Ok(());
        }
        struct In<'a>(&'a mut Over);
        impl stylish::io::Write for In<'_> {
            fn write(&mut self, b: &[u8], style: stylish::Style) -> io::Result<usize> {
                stylish::io::Write::write(self.0, b, style)
            }
            fn flush(&mut self) -> io::Result<()> {
                Ok(())
            }
        }
        stylish::io::Write::write_fmt(&mut In(self), args)
    }
}

/// C15.
pub fn c15(ctx: &Ctx) -> R {
    let pal = Palette::gen(ctx);
    let tree = TreeCfg { fail: ctx.chance(1, 3), panic: ctx.chance(1, 6), swallow: ctx.chance(1, 3), ..TreeCfg::default() };
    if ctx.chance(1, 3) {
        return c15_over(ctx, &pal, tree);
    }
    if ctx.chance(1, 3) {
        return c15_inside(ctx, &pal, tree);
    }
    const KINDS: [DK; 7] = [DK::IoAnsi, DK::UserIo, DK::Ansi, DK::Html, DK::IoPlain, DK::Plain, DK::UserFmt];
    let kind = *ctx.pick(&KINDS);
    let c = cfg(&KINDS, tree, 3);
    let n = ctx.small(1, 8);
    let ops: Vec<Op> = (0..n).map(|_| ctx.span(|| gen_op(ctx, kind, &c, &pal))).collect();
    let script = gen_script(ctx, 40, Allow { transient: true, fatal: true, panic: ctx.chance(1, 4), flush: false });
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    let go = |direct: bool| -> R<Trace> {
        let s = scripted(ctx, kind, &script);
        let h = s.handle();
        let mut d = Dut::new(kind, s, 0);
        let mut outs = Vec::new();
        for op in &ops {
            let flav = if direct { 0 } else { 1 + ctx.choose(FLAVORS - 1) as u8 };
            ctx.ev("op", op_code(op), flav as u64, || op.show());
            outs.push(d.op(op, flav, &env)?.show());
        }
        fin(d, &h, outs)
    };
    let a = go(true)?;
    let b = go(false)?;
    ensure!(a == b, "reference-differs", "{kind:?}, {:?}: directly vs through references: {}", ops.iter().map(|o| o.show()).collect::<Vec<_>>(), a.diff(&b));
    ctx.cover(a.calls);
    Ok(())
}

/// Through references, a writer's own overridden methods are used.
fn c15_over(ctx: &Ctx, pal: &Palette, tree: TreeCfg) -> R {
    let io_side = ctx.chance(1, 2);
    let kind = if io_side { DK::UserIo } else { DK::UserFmt };
    let c = cfg(&FIVE, tree, 3);
    let n = ctx.small(1, 6);
    let ops: Vec<Op> = (0..n).map(|_| ctx.span(|| gen_op(ctx, kind, &c, pal))).collect();
    let fail_at = if ctx.chance(1, 2) { Some(ctx.choose(12)) } else { None };
    if fail_at.is_some() {
        ctx.fault(F::IoError);
    }
    let deep = ctx.chance(1, 3);
    let error = if ctx.chance(1, 2) { Some(*ctx.pick(&crate::sink::OVER)) } else { None };
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    let go = |direct: bool| -> R<(Vec<String>, Vec<String>)> {
        let mut o = Over { fail_at, deep, kind: error, ..Over::default() };
        let mut outs = Vec::new();
        for op in &ops {
            let flav = if direct { 0 } else { 1 + ctx.choose(4) as u8 };
            ctx.ev("over", op_code(op), flav as u64, || op.show());
            let r = guard(|| if io_side { crate::dut::io_layers(&mut o, op, flav, &env) } else { crate::dut::fmt_layers(&mut o, op, flav, &env) })?;
            outs.push(r.unwrap_or(Out::Panic).show());
        }
        Ok((outs, o.log))
    };
    let a = go(true)?;
    let b = go(false)?;
    ensure!(a.0 == b.0, "reference-differs", "results directly {:?}, through references {:?}", a.0, b.0);
    ensure!(a.1 == b.1, "reference-differs", "the writer's methods called directly: {:?}, through references: {:?}", a.1, b.1);
    // Called directly, each operation reaches the method of that name.
    ctx.probe("overridden_methods_used");
    ctx.cover(hbytes(format!("{:?}", a.1).as_bytes()));
    Ok(())
}

/// Inside a value: the formatter's writer interfaces, against the writer itself.
fn c15_inside(ctx: &Ctx, pal: &Palette, tree: TreeCfg) -> R {
    const KINDS: [DK; 4] = [DK::Ansi, DK::Html, DK::Plain, DK::UserFmt];
    let kind = *ctx.pick(&KINDS);
    // Formatted writes are relative to the formatter, all else is absolute.
    let relative = ctx.chance(1, 2);
    let c = cfg(&KINDS, tree, if relative { 3 } else { 0 });
    let around = if relative { MS::default() } else { pal.style(ctx) };
    let n = ctx.small(1, 6);
    let ops: Vec<Op> = (0..n).map(|_| ctx.span(|| gen_op(ctx, kind, &c, pal))).collect();
    let script = gen_script(ctx, 24, Allow { transient: false, fatal: true, panic: ctx.chance(1, 6), flush: false });
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    let flavs: Vec<u8> = ops.iter().map(|_| ctx.choose(5) as u8).collect();
    struct V<'a>(&'a [Op], &'a [u8], &'a Env<'a>, &'a RefCell<Vec<String>>, MS);
    impl stylish::Display for V<'_> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            for (op, flav) in self.0.iter().zip(self.1) {
                let mut g = f.with(self.4.real());
                let out = crate::dut::fmt_layers(&mut g, op, *flav, self.2);
                self.3.borrow_mut().push(out.show());
            }
            Ok(())
        }
    }
    let run = |inside: bool| -> R<Trace> {
        let s = scripted(ctx, kind, &script);
        let h = s.handle();
        let mut d = Dut::new(kind, s, 0);
        let outs = RefCell::new(Vec::new());
        if inside {
            let v = V(&ops, &flavs, &env, &outs, around);
            let o = d.args(stylish::format_args!("{:s}", v))?;
            if let Out::Panic = o {
                outs.borrow_mut().push("Panic".into());
            }
        } else {
            for (op, flav) in ops.iter().zip(&flavs) {
                let o = d.op(op, *flav, &env)?;
                let p = matches!(o, Out::Panic);
                outs.borrow_mut().push(o.show());
                if p {
                    break;
                }
            }
        }
        fin(d, &h, outs.into_inner())
    };
    ctx.ev("inside", n as u64, 0, || format!("{kind:?} {:?}", ops.iter().map(|o| o.show()).collect::<Vec<_>>()));
    let a = run(false)?;
    let b = run(true)?;
    ensure!(a.bytes == b.bytes && a.outs == b.outs && a.finish == b.finish, "reference-differs", "{kind:?}: writing directly vs through the formatter of a value: {}", a.diff(&b));
    ctx.probe("through_the_formatter");
    ctx.cover(a.calls);
    Ok(())
}

/// C07: values that tidy up after a failure and pass it on at their end, or
/// keep it to themselves, between calls of which the failures must not mix.
pub fn c07_late(ctx: &Ctx) -> R {
    const KINDS: [DK; 7] = [DK::IoAnsi, DK::UserIo, DK::IoPlain, DK::Ansi, DK::Html, DK::Plain, DK::UserFmt];
    let kind = *ctx.pick(&KINDS);
    let pal = Palette::gen(ctx);
    struct Late<'a>(&'a [(String, MS)], u8);
    impl stylish::Display for Late<'_> {
        fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
            let mut first = Ok(());
            for (i, (t, st)) in self.0.iter().enumerate() {
                let r = match i % 3 {
                    0 => f.with(st.real()).write_str(t),
                    1 => stylish::write!(f.with(st.real()), "{}", t),
                    _ => stylish::write!(f, "{:s}", Late(&[(t.clone(), *st)], 1)),
                };
                first = first.and(r);
            }
            match self.1 {
                0 => Ok(()),
                1 => first,
                _ => Err(fmt::Error),
            }
        }
    }
    let transient = Allow { transient: true, fatal: false, panic: false, flush: false };
    let s = scripted(ctx, kind, &[]);
    let h = s.handle();
    let mut d = Dut::new(kind, s, 0);
    for _ in 0..1 + ctx.choose(3) {
        let parts: Vec<(String, MS)> = (0..1 + ctx.choose(5)).map(|_| ctx.span(|| (crate::tree::gen_text(ctx), pal.style(ctx)))).collect();
        let end = ctx.choose(3) as u8;
        let mut script = gen_script(ctx, 24, transient);
        let at = ctx.choose(10);
        script[at] = match ctx.choose(4) {
            0 => Act::Full,
            1 => Act::Err(gen_wouldblock(ctx)),
            2 if kind.io() => Act::Zero,
            _ => Act::Err(gen_hard(ctx)),
        };
        let mut s = lk(&h);
        s.script = Some(script);
        s.script_pos = 0;
        s.m = Default::default();
        drop(s);
        ctx.ev("op", end as u64, parts.len() as u64, || format!("formatted write of {parts:?}, {}", ["failures kept", "failures passed on at the end", "fails at the end"][end as usize]));
        let out = d.args(stylish::format_args!("{:s}", Late(&parts, end)))?;
        check_flag(ctx)?;
        let s = lk(&h);
        ctx.ev("ret", 0, matches!(out, Out::Done) as u64, || format!("{} after {:?}", out.show(), s.m.fatal));
        match (s.m.fatal.first(), end) {
            // Of a failure the value keeps to itself nothing is promised.
            (Some(_), 0) => {}
            (Some(&f), _) => {
                ensure!(crate::engine::same_failure(&out, f), "wrong-error", "{kind:?}: {parts:?} returned {} although the sink's only failure was {f:?}", out.show());
                ctx.probe("failure_passed_on_late");
            }
            (None, 2) => {
                // As on a fresh adaptor whose sink never failed.
                let mut fresh = Dut::new(kind, scripted(ctx, kind, &[]), 0);
                let alone = fresh.args(stylish::format_args!("{:s}", Late(&[], 2)))?;
                let known = matches!(out, Out::Fmt | Out::Io(_)) && out.show() == alone.show();
                ensure!(known, "wrong-error", "{kind:?}: {parts:?} failed by itself but the write returned {}", out.show());
            }
            _ => ensure!(matches!(out, Out::Done), "spurious-error", "{kind:?}: {parts:?} returned {} although nothing failed", out.show()),
        }
    }
    Ok(())
}

/// C16: a simulated disk, optionally behind a real buffered writer.
pub fn c16(ctx: &Ctx) -> R {
    const KINDS: [DK; 2] = [DK::IoAnsi, DK::IoPlain];
    let kind = *ctx.pick(&KINDS);
    let pal = Palette::gen(ctx);
    let f = Faults::gen(ctx, Allow { transient: true, fatal: ctx.chance(1, 3), panic: false, flush: true });
    let disk = Sink::new(ctx, kind.screen(), f);
    let h = disk.handle();
    let buf = ctx.choose(4);
    let cap = [0, 1, 4, 16, 64, 300, 8192][ctx.choose(7)];
    ctx.ev("disk", buf as u64, cap as u64, || format!("{kind:?} over {}", ["the disk", "the disk", "BufWriter", "LineWriter"][buf]));
    let w: Box<dyn io::Write> = match buf {
        0 | 1 => Box::new(disk),
        2 => Box::new(io::BufWriter::with_capacity(cap, disk)),
        _ => Box::new(io::LineWriter::with_capacity(cap.max(1), disk)),
    };
    // Leaked on a crash: nothing gets to run when the power goes.
    let mut w: Box<dyn stylish::io::Write> = match kind {
        DK::IoAnsi => Box::new(stylish::io::Ansi::new(w)),
        _ => Box::new(stylish::io::Plain::new(w)),
    };
    let direct = buf < 2;
    let c = cfg(&KINDS, TreeCfg::default(), 3);
    let mut acked = Vec::new();
    let mut safe = 0;
    let crash_point = ctx.small(1, 16);
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    let mut broken = false;
    for _ in 0..crash_point {
        ctx.span(|| -> R {
            let mut op = if ctx.chance(1, 4) { Op::Flush } else { gen_op(ctx, kind, &c, &pal) };
            if let (Op::Write(b, s), false) = (&op, direct) {
                op = Op::All(b.clone(), *s);
            }
            let want = op.want();
            lk(&h).m = Default::default();
            let flav = ctx.choose(5) as u8;
            ctx.ev("op", op_code(&op), flav as u64, || op.show());
            let out = guard(|| crate::dut::dyn_io(&mut *w, &op, flav, &env))?.unwrap_or(Out::Panic);
            ctx.ev("ret", 0, matches!(out, Out::Done) as u64, || out.show());
            let s = lk(&h);
            let mut cells = crate::engine::cells_of(kind, &want);
            match (&op, &out) {
                (Op::Flush, o) => {
                    // With a buffer in between it reaches the disk only once
                    // the buffered data did.
                    let expect_ok = s.m.flush_err.is_none() && s.m.fatal.is_empty();
                    match o {
                        Out::Done => {
                            ensure!(expect_ok, "failure-not-reported", "flush returned Ok but the disk said {:?} {:?}", s.m.flush_err, s.m.fatal);
                            ensure!(s.m.flush_calls >= 1, "flush-not-forwarded", "flush returned Ok without flushing the sink");
                            safe = acked.len();
                            ctx.probe("flushed");
                        }
                        Out::Io(e) => {
                            let same = match (s.m.flush_err, s.m.fatal.first()) {
                                (_, Some(Fatal::Io(x))) => x.matches(e),
                                (_, Some(Fatal::Zero)) => e.kind() == io::ErrorKind::WriteZero,
                                (Some(x), None) => x.matches(e),
                                _ => false,
                            };
                            ensure!(same, "wrong-error", "flush returned {} but the disk said {:?} {:?}", o.show(), s.m.flush_err, s.m.fatal);
                        }
                        o => ensure!(false, "wrong-result", "flush: {}", o.show()),
                    }
                    ensure!(!direct || s.m.flush_calls == 1, "flush-not-forwarded", "one flush became {} flushes", s.m.flush_calls);
                }
                (_, Out::Done) => acked.append(&mut cells),
                (Op::Write(..), Out::N(n)) => {
                    cells.truncate(*n);
                    acked.append(&mut cells);
                }
                // Interrupted with nothing accepted.
                (Op::Write(..), Out::Io(e)) if e.kind() == io::ErrorKind::Interrupted && s.m.fatal.is_empty() => {}
                _ => {
                    ensure!(!s.m.fatal.is_empty(), "spurious-error", "{} returned {} although nothing failed", op.show(), out.show());
                    broken = true;
                }
            }
            if direct && !broken {
                ensure!(
                    s.screen.cells == acked,
                    "held-back",
                    "after {} the disk has {} but {} was acknowledged", op.show(), show(&s.screen.cells), show(&acked)
                );
            }
            Ok(())
        })?;
        if broken {
            break;
        }
    }
    // Power loss: only what was flushed survives.
    ctx.fault(F::Crash);
    std::mem::forget(w);
    let s = lk(&h);
    let mut scr = Screen::new(kind.screen());
    scr.feed(&s.bytes[..s.durable]);
    ctx.ev("crash", s.durable as u64, s.bytes.len() as u64, || format!("{} of {} bytes survive", s.durable, s.bytes.len()));
    if let Some(b) = &scr.bad {
        ensure!(false, "malformed-output", "{b}");
    }
    ensure!(
        scr.cells.len() >= safe,
        "lost-after-flush",
        "after a successful flush {} characters were safe but a crash left only {}", safe, show(&scr.cells)
    );
    if !broken {
        ensure!(scr.cells.len() <= acked.len() && scr.cells[..] == acked[..scr.cells.len()], "wrong-output", "the disk holds {} but {} was written", show(&scr.cells), show(&acked));
    } else {
        let k = scr.cells.len().min(acked.len());
        ensure!(scr.cells[..k] == acked[..k], "wrong-output", "the disk holds {} but {} was written", show(&scr.cells), show(&acked));
    }
    ctx.cover(safe as u64 | (buf as u64) << 32 | (cap as u64) << 36);
    Ok(())
}

/// C19.
pub fn c19(ctx: &Ctx) -> R {
    match ctx.choose(6) {
        0 => c19_interleaved(ctx, true),
        1 => c19_interleaved(ctx, false),
        2 => c19_nested(ctx),
        3 => c19_clones(ctx),
        4 => c19_strings(ctx),
        _ => c19_shared(ctx),
    }
}

struct Client {
    kind: DK,
    ops: Vec<Op>,
    flavs: Vec<u8>,
    script: Vec<Act>,
}
fn gen_client(ctx: &Ctx, pal: &Palette, tree: TreeCfg, hi: usize) -> Client {
    ctx.span(|| {
        let kind = *ctx.pick(&crate::dut::ALL_DK);
        let c = cfg(&FIVE, tree, 3);
        let n = ctx.small(1, hi);
        let ops: Vec<Op> = (0..n).map(|_| gen_op(ctx, kind, &c, pal)).collect();
        let flavs = ops.iter().map(|_| ctx.choose(FLAVORS) as u8).collect();
        let script = gen_script(ctx, 24, Allow { transient: true, fatal: true, panic: ctx.chance(1, 4), flush: false });
        Client { kind, ops, flavs, script }
    })
}
fn solo(ctx: &Ctx, c: &Client, env: &Env<'_>) -> R<Trace> {
    let s = scripted(ctx, c.kind, &c.script);
    let h = s.handle();
    let mut d = Dut::new(c.kind, s, 0);
    let mut outs = Vec::new();
    for (op, f) in c.ops.iter().zip(&c.flavs) {
        outs.push(d.op(op, *f, env)?.show());
    }
    fin(d, &h, outs)
}
fn name(c: &Client) -> String {
    format!("{:?} {:?}", c.kind, c.ops.iter().map(|o| o.show()).collect::<Vec<_>>())
}

fn c19_interleaved(ctx: &Ctx, threads: bool) -> R {
    let pal = Palette::gen(ctx);
    // Values may be preempted too, in the middle of formatting.
    let hook = threads && ctx.chance(1, 2);
    let tree = TreeCfg { fail: ctx.chance(1, 4), panic: ctx.chance(1, 6), swallow: ctx.chance(1, 3), hook, ..TreeCfg::default() };
    let n = 2 + ctx.choose(3);
    let clients: Vec<Client> = (0..n).map(|_| gen_client(ctx, &pal, tree, 6)).collect();
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    let mut alone = Vec::new();
    for c in &clients {
        alone.push(solo(ctx, c, &env)?);
    }
    let together: Vec<R<Trace>> = if threads {
        let baton = Arc::new(Baton::new(n, 1 + ctx.choose(6), ctx.choose(n)));
        std::thread::scope(|sc| {
            let hs: Vec<_> = clients
                .iter()
                .enumerate()
                .map(|(me, c)| {
                    let (baton, ctx) = (baton.clone(), ctx.clone());
                    sc.spawn(move || {
                        baton.enter(me);
                        let pause = || baton.yield_point(&ctx);
                        let env = Env { ctx: Some(ctx.clone()), hook: Some(&pause) };
                        let r = (|| {
                            let mut s = scripted(&ctx, c.kind, &c.script);
                            s.baton = Some(baton.clone());
                            let h = s.handle();
                            let mut d = Dut::new(c.kind, s, 0);
                            let mut outs = Vec::new();
                            for (op, f) in c.ops.iter().zip(&c.flavs) {
                                baton.yield_point(&ctx);
                                outs.push(d.op(op, *f, &env)?.show());
                            }
                            baton.yield_point(&ctx);
                            fin(d, &h, outs)
                        })();
                        baton.leave(&ctx);
                        r
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    } else {
        // One thing at a time, operations of all clients interleaved; at times
        // adaptors move from thread to thread.
        let migrate = ctx.chance(1, 4);
        ctx.probe_if(migrate, "adaptors_move_between_threads");
        let mut live: Vec<_> = clients
            .iter()
            .map(|c| {
                let s = scripted(ctx, c.kind, &c.script);
                let h = s.handle();
                (Some(Dut::new(c.kind, s, 0)), h, 0, Vec::new(), None)
            })
            .collect();
        let mut left = n;
        while left > 0 {
            let mut i = ctx.choose(n);
            while live[i].0.is_none() {
                i = (i + 1) % n;
            }
            let c = &clients[i];
            let l = &mut live[i];
            ctx.ev("client", i as u64, l.2 as u64, || format!("client {i}"));
            if l.2 < c.ops.len() {
                let (op, flav) = (&c.ops[l.2], c.flavs[l.2]);
                let o = if migrate && ctx.chance(1, 2) {
                    let d = l.0.as_mut().unwrap();
                    std::thread::scope(|sc| sc.spawn(|| d.op(op, flav, &Env { ctx: Some(ctx.clone()), hook: None })).join().unwrap())?
                } else {
                    l.0.as_mut().unwrap().op(op, flav, &env)?
                };
                l.3.push(o.show());
                l.2 += 1;
            } else {
                l.4 = Some(fin(l.0.take().unwrap(), &l.1, std::mem::take(&mut l.3)));
                left -= 1;
            }
        }
        live.into_iter().map(|l| l.4.unwrap()).collect()
    };
    let mut sig = 0;
    for ((a, b), c) in alone.iter().zip(together).zip(&clients) {
        let b = b?;
        sig = hstep(sig, a.calls);
        ensure!(*a == b, "influenced", "{}: alone vs {}: {}", name(c), if threads { "with other threads" } else { "interleaved with others" }, a.diff(&b));
    }
    ctx.cover(sig);
    ctx.probe(if threads { "threads_compared_with_solo" } else { "interleaving_compared_with_solo" });
    Ok(())
}

/// A value of one client formats to the adaptors of others.
fn c19_nested(ctx: &Ctx) -> R {
    let pal = Palette::gen(ctx);
    let outer = gen_client(ctx, &pal, TreeCfg { hook: true, fail: ctx.chance(1, 4), ..TreeCfg::default() }, 4);
    let inner = gen_client(ctx, &pal, TreeCfg { fail: ctx.chance(1, 4), ..TreeCfg::default() }, 6);
    let none = Env { ctx: Some(ctx.clone()), hook: None };
    let (a, b) = (solo(ctx, &outer, &none)?, solo(ctx, &inner, &none)?);
    let s = scripted(ctx, inner.kind, &inner.script);
    let hi = s.handle();
    let st = RefCell::new((Dut::new(inner.kind, s, 0), 0usize, Vec::new()));
    let bad: RefCell<R> = RefCell::new(Ok(()));
    let inner_env = Env { ctx: Some(ctx.clone()), hook: None };
    let step = || {
        let mut g = st.borrow_mut();
        let (d, at, outs) = &mut *g;
        if *at < inner.ops.len() {
            match d.op(&inner.ops[*at], inner.flavs[*at], &inner_env) {
                Ok(o) => outs.push(o.show()),
                Err(v) => *bad.borrow_mut() = Err(v),
            }
            *at += 1;
            ctx.probe("nested_operation");
        }
    };
    let env = Env { ctx: Some(ctx.clone()), hook: Some(&step) };
    let so = scripted(ctx, outer.kind, &outer.script);
    let ho = so.handle();
    let mut d = Dut::new(outer.kind, so, 0);
    let mut outs = Vec::new();
    for (op, f) in outer.ops.iter().zip(&outer.flavs) {
        outs.push(d.op(op, *f, &env)?.show());
    }
    let a2 = fin(d, &ho, outs)?;
    while st.borrow().1 < inner.ops.len() {
        step();
    }
    bad.into_inner()?;
    let (d, _, outs) = st.into_inner();
    let b2 = fin(d, &hi, outs)?;
    ensure!(a == a2, "influenced", "{} (outer): alone vs while another is used inside it: {}", name(&outer), a.diff(&a2));
    ensure!(b == b2, "influenced", "{} (inner): alone vs used inside another's formatting: {}", name(&inner), b.diff(&b2));
    ctx.cover(hstep(a.calls, b.calls));
    Ok(())
}

/// A clone and its original evolve independently.
fn c19_clones(ctx: &Ctx) -> R {
    let pal = Palette::gen(ctx);
    let tree = TreeCfg { fail: ctx.chance(1, 4), ..TreeCfg::default() };
    let c = gen_client(ctx, &pal, tree, 8);
    let other = ctx.span(|| {
        let cc = cfg(&FIVE, tree, 3);
        let n = ctx.small(1, 5);
        (0..n).map(|_| gen_op(ctx, c.kind, &cc, &pal)).collect::<Vec<Op>>()
    });
    let at = ctx.choose(c.ops.len() + 1);
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    // Expected: the original alone, and prefix + the clone's operations alone.
    let run = |ops: Vec<&Op>| -> R<Trace> {
        let s = scripted(ctx, c.kind, &c.script);
        let h = s.handle();
        let mut d = Dut::new(c.kind, s, 0);
        let mut outs = Vec::new();
        for op in ops {
            outs.push(d.op(op, 0, &env)?.show());
        }
        fin(d, &h, outs)
    };
    let a = run(c.ops.iter().collect())?;
    let b = run(c.ops[..at].iter().chain(&other).collect())?;
    let s = scripted(ctx, c.kind, &c.script);
    let h = s.handle();
    let mut d = Dut::new(c.kind, s, 0);
    let mut outs = Vec::new();
    for op in &c.ops[..at] {
        outs.push(d.op(op, 0, &env)?.show());
    }
    let d2 = if ctx.chance(1, 2) {
        // In place, over an adaptor that was in use.
        let mut d2 = Dut::new(c.kind, Sink::new(ctx, c.kind.screen(), Faults::NONE), 0);
        for op in other.iter().take(ctx.choose(3)) {
            d2.op(op, 0, &env)?;
        }
        guard(|| d2.copy(&d))?;
        ctx.probe("cloned_in_place");
        d2
    } else {
        guard(|| d.clone())?.unwrap()
    };
    ctx.ev("clone", at as u64, 0, || format!("{:?} cloned after {at} operations", c.kind));
    let h2 = lk(&h).forked.take();
    ensure!(h2.is_some(), "influenced", "cloning the adaptor did not clone its sink");
    let h2 = h2.unwrap();
    let (mut o1, mut o2) = (outs.clone(), outs);
    let (mut d1, mut d2) = (d, d2);
    let (mut i, mut j) = (at, 0);
    while i < c.ops.len() || j < other.len() {
        if j >= other.len() || i < c.ops.len() && ctx.chance(1, 2) {
            o1.push(d1.op(&c.ops[i], 0, &env)?.show());
            i += 1;
        } else {
            o2.push(d2.op(&other[j], 0, &env)?.show());
            j += 1;
        }
    }
    let (a2, b2) = if ctx.chance(1, 2) {
        let a2 = fin(d1, &h, o1)?;
        (a2, fin(d2, &h2, o2)?)
    } else {
        let b2 = fin(d2, &h2, o2)?;
        (fin(d1, &h, o1)?, b2)
    };
    let same = |x: &Trace, y: &Trace| x.outs == y.outs && x.bytes == y.bytes && x.finish == y.finish;
    ensure!(same(&a, &a2), "influenced", "{}: alone vs with a clone taken after {at} operations: {}", name(&c), a.diff(&a2));
    ensure!(same(&b, &b2), "influenced", "{}: a clone taken after {at} operations: expected vs got: {}", name(&c), b.diff(&b2));
    ctx.cover(hstep(a.calls, b.calls));
    ctx.probe("clone_compared");
    Ok(())
}

/// Attributed strings, their clones and adaptors in use at the same time.
fn c19_strings(ctx: &Ctx) -> R {
    use stylish::Write as _;
    let pal = Palette::gen(ctx);
    let mut pool: Vec<(stylish::String, Vec<(u8, MS)>)> = vec![Default::default(), Default::default()];
    for _ in 0..ctx.small(2, 20) {
        ctx.span(|| -> R {
            ctx.refuel();
            let i = ctx.choose(pool.len());
            match ctx.choose(4) {
                0 => {
                    ctx.ev("clone", i as u64, 0, || format!("#{} cloned from #{i}", pool.len()));
                    ctx.fault(F::Fork);
                    let c = guard(|| pool[i].clone())?.unwrap();
                    if pool.len() < 5 && ctx.chance(2, 3) {
                        pool.push(c);
                    } else {
                        let j = ctx.choose(pool.len());
                        if ctx.chance(1, 2) {
                            guard(|| pool[j].0.clone_from(&c.0))?;
                            pool[j].1 = c.1;
                        } else {
                            pool[j] = c;
                        }
                    }
                }
                1 => {
                    // From one to another, by formatting.
                    let j = ctx.choose(pool.len());
                    if pool[i].1.len() + pool[j].1.len() > 4000 {
                        return Ok(());
                    }
                    ctx.ev("append", i as u64, j as u64, || format!("#{i} append #{j}"));
                    let src = guard(|| pool[j].clone())?.unwrap();
                    let r = guard(|| stylish::write!(pool[i].0, "{:s}", src.0))?;
                    ensure!(r == Some(Ok(())), "wrong-result", "appending a string failed");
                    pool[i].1.extend(src.1);
                }
                _ => {
                    let (t, m) = (crate::tree::gen_text(ctx), pal.style(ctx));
                    ctx.ev("write", i as u64, t.len() as u64, || format!("#{i} write_str({t:?}, {m:?})"));
                    let r = guard(|| stylish::Write::write_str(&mut pool[i].0, &t, m.real()))?;
                    ensure!(r == Some(Ok(())), "wrong-result", "write_str to a string failed");
                    pool[i].1.extend(t.bytes().map(|b| (b, m)));
                }
            }
            Ok(())
        })?;
    }
    let mut sig = 11;
    for (j, (s, m)) in pool.iter().enumerate() {
        let mut r = crate::rec::Rec::default();
        let out = guard(|| stylish::write!(r, "{:s}", s))?;
        ensure!(out == Some(Ok(())), "wrong-result", "rendering string #{j} returned {out:?}");
        ensure!(r.cells() == *m, "influenced", "string #{j} holds {} but {} was written to it", crate::rec::show2(&r.cells()), crate::rec::show2(m));
        sig = hstep(sig, m.len() as u64);
    }
    ctx.cover(sig);
    ctx.probe("strings_compared");
    Ok(())
}

/// One attributed string, rendered by several threads at once.
fn c19_shared(ctx: &Ctx) -> R {
    let pal = Palette::gen(ctx);
    let mut text = stylish::String::new();
    for _ in 0..ctx.small(1, 8) {
        ctx.span(|| {
            let (t, m) = (crate::tree::gen_text(ctx), pal.style(ctx));
            ctx.ev("write", 0, t.len() as u64, || format!("write_str({t:?}, {m:?})"));
            guard(|| stylish::Write::write_str(&mut text, &t, m.real()))
        })?;
    }
    let n = 2 + ctx.choose(3);
    let clients: Vec<(DK, Vec<Act>, usize)> = (0..n)
        .map(|_| {
            ctx.span(|| {
                let kind = *ctx.pick(&crate::dut::ALL_DK);
                let script = gen_script(ctx, 24, Allow { transient: true, fatal: true, panic: false, flush: false });
                (kind, script, 1 + ctx.choose(3))
            })
        })
        .collect();
    let one = |(kind, script, times): &(DK, Vec<Act>, usize), baton: Option<Arc<Baton>>| -> R<Trace> {
        let mut s = scripted(ctx, *kind, script);
        s.baton = baton.clone();
        let h = s.handle();
        let mut d = Dut::new(*kind, s, 0);
        let mut outs = Vec::new();
        for _ in 0..*times {
            if let Some(b) = &baton {
                b.yield_point(ctx);
            }
            outs.push(d.string(&text)?.show());
        }
        fin(d, &h, outs)
    };
    let mut alone = Vec::new();
    for c in &clients {
        alone.push(one(c, None)?);
    }
    let baton = Arc::new(Baton::new(n, 1 + ctx.choose(6), ctx.choose(n)));
    let together: Vec<R<Trace>> = std::thread::scope(|sc| {
        let hs: Vec<_> = clients
            .iter()
            .enumerate()
            .map(|(me, c)| {
                let (baton, one) = (baton.clone(), &one);
                sc.spawn(move || {
                    baton.enter(me);
                    let r = one(c, Some(baton.clone()));
                    baton.leave(ctx);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut sig = 13;
    for ((a, b), c) in alone.iter().zip(together).zip(&clients) {
        let b = b?;
        sig = hstep(sig, a.calls);
        ensure!(*a == b, "influenced", "{:?}: one string rendered alone vs while other threads render it: {}", c.0, a.diff(&b));
    }
    ctx.cover(sig);
    ctx.probe("shared_string_compared");
    Ok(())
}
