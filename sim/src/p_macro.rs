//! C13 (parity with std) and C14 (argument evaluation).

use crate::{
    ctx::{Ctx, R},
    dut::guard,
    evals,
    rec::Rec,
    screen::{Kind, Screen},
};
use std::{
    cell::{Cell, RefCell},
    fmt,
};

thread_local! {
    static LOG: RefCell<Vec<(char, usize)>> = const { RefCell::new(Vec::new()) };
    static FAILS: Cell<u32> = const { Cell::new(0) };
}

/// A value that logs each time it is formatted.
pub struct P(pub usize);
#[rustfmt::skip]
pub static PS: [P; 20] = [
    P(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7), P(8), P(9),
    P(10), P(11), P(12), P(13), P(14), P(15), P(16), P(17), P(18), P(19),
];

#[rustfmt::skip]
const NAMES: [&str; 20] = [
    "zero", "one", "two", "three", "four", "five", "six", "seven", "eight", "nine",
    "ten", "eleven", "twelve", "13", "14", "15", "16", "17", "18", "19",
];
impl P {
    pub fn me(&self) -> &P {
        self
    }
    fn go(&self, w: &mut dyn FnMut(&str) -> fmt::Result) -> fmt::Result {
        LOG.with(|l| l.borrow_mut().push(('f', self.0)));
        w(NAMES[self.0])?;
        if FAILS.with(|f| f.get()) >> self.0 & 1 == 1 {
            return Err(fmt::Error);
        }
        Ok(())
    }
}
impl stylish::Display for P {
    fn fmt(&self, f: &mut stylish::Formatter<'_>) -> stylish::Result {
        self.go(&mut |s| f.write_str(s))
    }
}
macro_rules! std_traits {
    ($($t:ident)*) => {$(
        impl fmt::$t for P {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.go(&mut |s| f.write_str(s))
            }
        }
    )*};
}
std_traits!(Display Debug Octal LowerHex UpperHex Binary LowerExp UpperExp);

fn visible(kind: Kind, out: &str) -> String {
    let mut s = Screen::new(kind);
    s.feed(out.as_bytes());
    match s.bad {
        Some(b) => format!("<malformed: {b}>"),
        None => String::from_utf8_lossy(&s.cells.iter().map(|c| c.byte).collect::<Vec<_>>()).into_owned(),
    }
}

fn take() -> Vec<(char, usize)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// The rendering that should happen: text, log, and whether it succeeds.
fn model(site: usize, fails: u32, limit: Option<usize>, ln: bool) -> (String, Vec<(char, usize)>, bool) {
    let mut text = String::new();
    let mut log = Vec::new();
    let over = |t: &String, s: &str| limit.is_some_and(|l| t.len() + s.len() > l);
    for e in evals::EVALS[site].1 {
        match e {
            evals::E::L(s) => {
                if over(&text, s) {
                    // Part of a literal may still have gone out.
                    return (text + s, log, false);
                }
                text.push_str(s);
            }
            evals::E::A(i, _) => {
                log.push(('f', *i));
                if over(&text, NAMES[*i]) {
                    return (text, log, false);
                }
                text.push_str(NAMES[*i]);
                if fails >> i & 1 == 1 {
                    return (text, log, false);
                }
            }
        }
    }
    if ln {
        if over(&text, "\n") {
            return (text, log, false);
        }
        text.push('\n');
    }
    (text, log, true)
}

pub fn c14(ctx: &Ctx) -> R {
    let site = ctx.choose(evals::EVALS.len());
    let n = evals::EVALS[site].0;
    let full = model(site, 0, None, true).0.len();
    take();
    let ev = |i: usize| -> &'static P {
        LOG.with(|l| l.borrow_mut().push(('e', i)));
        &PS[i]
    };
    let evals_want: Vec<(char, usize)> = (0..n).map(|i| ('e', i)).collect();
    let gen_fails = |ctx: &Ctx| if ctx.chance(1, 2) { ctx.choose(1 << n) as u32 } else { 0 };
    let how = ctx.choose(6);
    ctx.ev("site", site as u64, how as u64, || format!("{:?} by way {how}", evals::EVALS[site]));
    match how {
        0..=2 => {
            let renders = 1 + ctx.choose(4);
            let mut res: R = Ok(());
            let mut called = 0;
            guard(|| {
                evals::eval(site, &ev, &mut |args| {
                    called += 1;
                    let check = || -> R {
                        let log = take();
                        ensure!(log == evals_want, "evaluation", "site {:?}: evaluated {log:?} before rendering, expected {evals_want:?}", evals::EVALS[site]);
                        for r in 0..renders {
                            ctx.span(|| -> R {
                                let fails = gen_fails(ctx);
                                FAILS.with(|f| f.set(fails));
                                let limit = if ctx.chance(1, 2) { Some(ctx.choose(full + 1)) } else { None };
                                let mut rec = Rec { limit, ..Rec::default() };
                                let to = ctx.choose(3);
                                // `Arguments` is itself a value and is rendered by reference.
                                let out = guard(|| match to {
                                    0 => stylish::write!(&mut rec as &mut dyn stylish::Write, "{:s}", args),
                                    1 => stylish::write!(&mut rec as &mut dyn stylish::Write, "{0:(fg=red)s}", &args),
                                    _ => {
                                        use stylish::Write as _;
                                        rec.write_fmt(stylish::format_args!("{args:s}"))
                                    }
                                })?;
                                if rec.rejected > 0 {
                                    ctx.fault(crate::ctx::F::FmtReject);
                                }
                                let (t, l, ok) = model(site, fails, limit, false);
                                let log = take();
                                let got = String::from_utf8_lossy(&rec.bytes).into_owned();
                                ctx.ev("render", fails as u64, limit.unwrap_or(9999) as u64, || format!("#{r} failing set {fails:b} limit {limit:?} -> {out:?} {got:?}"));
                                if fails != 0 && !ok && rec.rejected == 0 {
                                    ctx.fault(crate::ctx::F::DisplayError);
                                }
                                judge(site, &got, rec.rejected > 0, rec.after_reject, out, &log, t, l, ok)
                            })?;
                        }
                        Ok(())
                    };
                    res = check();
                })
            })?;
            ensure!(called == 1, "evaluation", "the arguments were built {called} times");
            res?;
            ctx.probe_if(renders > 1, "rendered_again");
        }
        3 => {
            // write!/writeln! directly.
            let fails = gen_fails(ctx);
            FAILS.with(|f| f.set(fails));
            let ln = ctx.chance(1, 2);
            let limit = if ctx.chance(1, 2) { Some(ctx.choose(full + 1)) } else { None };
            let mut rec = Rec { limit, ..Rec::default() };
            let dst = Cell::new(0u32);
            let out = guard(|| evals::eval_write(site, &ev, ln, &|| dst.set(dst.get() + 1), &mut rec))?;
            ensure!(dst.get() == 1, "evaluation", "{:?}: the destination was evaluated {} times", evals::EVALS[site], dst.get());
            let log = take();
            let (t, mut l, ok) = model(site, fails, limit, ln);
            if rec.rejected > 0 {
                ctx.fault(crate::ctx::F::FmtReject);
            } else if !ok {
                ctx.fault(crate::ctx::F::DisplayError);
            }
            l.splice(0..0, evals_want.iter().copied());
            let got = String::from_utf8_lossy(&rec.bytes).into_owned();
            ctx.ev("write", fails as u64, limit.unwrap_or(9999) as u64, || format!("write! ln {ln} failing set {fails:b} limit {limit:?} -> {out:?} {got:?}"));
            judge(site, &got, rec.rejected > 0, rec.after_reject, out, &log, t, l, ok)?;
        }
        _ => {
            // A one-shot macro; only some sites go through the others.
            let which = if how == 5 { Some((ctx.choose(evals::N_ONE), ctx.choose(3))) } else { None };
            let site = which.map_or(site, |(j, _)| evals::ONE[j]);
            let n = evals::EVALS[site].0;
            let evals_want: Vec<(char, usize)> = (0..n).map(|i| ('e', i)).collect();
            let fails = if ctx.chance(1, 2) { ctx.choose(1 << n) as u32 } else { 0 };
            FAILS.with(|f| f.set(fails));
            let (t, mut l, ok) = model(site, fails, None, false);
            l.splice(0..0, evals_want.iter().copied());
            let r = std::panic::catch_unwind(|| match which {
                None => evals::eval_plain(site, &ev),
                Some((j, w)) => {
                    let out = evals::eval_one(j, w, &ev);
                    match w {
                        // What the first wrote to the attributed string is
                        // taken back out as plain text.
                        0 => out,
                        1 => visible(Kind::Ansi, &out),
                        _ => visible(Kind::Html, &out),
                    }
                }
            });
            let log = take();
            ctx.ev("format", fails as u64, ok as u64, || format!("format! failing set {fails:b} -> {:?}", r.as_ref().ok()));
            ensure!(log == l, "evaluation", "format! of {:?}: logged {log:?}, expected {l:?}", evals::EVALS[site]);
            match r {
                Ok(g) => ensure!(ok && g == t, "wrong-output", "format! of {:?} gave {g:?}, expected {t:?} (ok: {ok})", evals::EVALS[site]),
                Err(_) => {
                    ensure!(!ok, "panic", "format! panicked: {}", crate::dut::LAST_PANIC.with(|l| l.borrow().clone()));
                    ctx.fault(crate::ctx::F::DisplayError);
                }
            }
        }
    }
    FAILS.with(|f| f.set(0));
    ctx.cover((site as u64) << 8 | how as u64);
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn judge(
    site: usize,
    got: &str,
    rejected: bool,
    after: u32,
    out: Option<stylish::Result>,
    log: &[(char, usize)],
    t: String,
    l: Vec<(char, usize)>,
    ok: bool,
) -> R {
    let s = &evals::EVALS[site];
    ensure!(log == l, "evaluation", "{s:?}: logged {log:?}, expected {l:?}");
    ensure!(out == Some(if ok { Ok(()) } else { Err(fmt::Error) }), "wrong-result", "{s:?}: returned {out:?}, expected ok: {ok}");
    ensure!(after == 0, "continues-after-failure", "{s:?}: {after} writes after the writer rejected one");
    if rejected {
        ensure!(t.starts_with(got), "wrong-output", "{s:?}: delivered {got:?}, expected a prefix of {t:?}");
    } else {
        ensure!(t == got, "wrong-output", "{s:?}: delivered {got:?}, expected {t:?}");
    }
    Ok(())
}

#[cfg(not(feature = "corpus"))]
pub fn c13(_: &Ctx) -> R {
    unreachable!("built without the corpus")
}

/// C13: std's own formatting is the model.
#[cfg(feature = "corpus")]
pub fn c13(ctx: &Ctx) -> R {
    use crate::{
        dut::{Dut, Out, ALL_DK},
        sink::{lk, tail, Allow, Faults, Sink},
        val::{gen_val, Val},
    };
    let i = ctx.choose(crate::corpus::SITES.len());
    let site = &crate::corpus::SITES[i];
    let failing = ctx.chance(1, 3);
    let vals: Vec<Val> = (0..site.n).map(|_| gen_val(ctx, failing)).collect();
    let mut text = String::new();
    let want = (site.std)(&vals, &mut text);
    ctx.ev("site", i as u64, want.is_ok() as u64, || format!("{:?} std gives {want:?} {text:?}", site.spec));
    let kind = *ctx.pick(&ALL_DK);
    let f = Faults::gen(ctx, Allow { transient: true, fatal: true, panic: ctx.chance(1, 8), flush: false });
    let sink = Sink::new(ctx, kind.screen(), f);
    let h = sink.handle();
    let mut dut = Dut::new(kind, sink, 0);
    let mut out: R<Out> = Ok(Out::Panic);
    let mut called = 0;
    // The flags of an enclosing `s` argument are not for what is inside.
    let wrap = ctx.choose(12);
    guard(|| {
        (site.styl)(&vals, &mut |args| {
            called += 1;
            out = match wrap {
                1 => dut.args(stylish::format_args!("{:>40(fg=red)s}", args)),
                2 => dut.args(stylish::format_args!("{:^+#012.2s}", args)),
                3 => dut.args(stylish::format_args!("{0:<0.0(bold)s}", args)),
                4 => dut.args(stylish::format_args!("{:-#33s}", stylish::format_args!("{args:.1(bg=blue)s}"))),
                _ => dut.args(args),
            };
        })
    })?;
    let out = out?;
    ensure!(called == 1, "evaluation", "the arguments were built {called} times");
    let s = lk(&h);
    let got: Vec<u8> = s.screen.cells.iter().map(|c| c.byte).collect();
    if let Some(b) = &s.screen.bad {
        ensure!(false, "malformed-output", "{:?} via {kind:?}: {b}", site.spec);
    }
    ctx.ev("out", got.len() as u64, 0, || format!("{kind:?} -> {} {:?}", out.show(), tail(&got)));
    ctx.cover((i as u64) << 8 | (want.is_ok() as u64) << 1 | s.m.fatal.is_empty() as u64);
    let sp = site.spec;
    if !s.m.fatal.is_empty() {
        ensure!(text.as_bytes().starts_with(&got), "differs-from-std", "{sp:?} via {kind:?}: delivered {:?} before the sink failed, std gives {text:?}", tail(&got));
        ensure!(!matches!(out, Out::Done), "failure-not-reported", "{sp:?} via {kind:?}: Ok although the sink answered {:?}", s.m.fatal);
        ctx.probe("cut_by_sink");
    } else {
        ensure!(got == text.as_bytes(), "differs-from-std", "{sp:?} via {kind:?}: {:?}, std gives {text:?}", String::from_utf8_lossy(&got));
        ensure!(
            matches!(out, Out::Done) == want.is_ok(),
            "differs-from-std",
            "{sp:?} via {kind:?}: returned {}, std {want:?}", out.show()
        );
        ctx.probe_if(want.is_err(), "cut_by_value");
    }
    Ok(())
}
