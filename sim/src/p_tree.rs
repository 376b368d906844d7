//! C10 (nesting), C11 (attributed strings), C12 (chunking), C20 (one-shot).

use crate::{
    ctx::{hbytes, Ctx, F, R},
    dut::{guard, Dut, Op, Out, DK, FLAVORS},
    rec::{seg_cells, show2, Rec, RecIo},
    screen::MS,
    sink::{lk, tail, Allow, Faults, Sink},
    tree::{gen_char, gen_text, gen_tree, Env, Node, Palette, Stop, TreeCfg, TV},
};
use std::panic::{catch_unwind, AssertUnwindSafe};
use stylish::{ToAnsiString, ToHtmlString, ToPlainString, ToStylishString, Write as _};

/// C10: random nestings against the interpreter.
pub fn c10(ctx: &Ctx) -> R {
    let pal = Palette::gen(ctx);
    let swallow = ctx.chance(2, 3);
    let cfg = TreeCfg {
        fail: ctx.chance(1, 2),
        panic: ctx.chance(1, 3),
        swallow,
        poison: ctx.chance(1, 2),
        ..TreeCfg::default()
    };
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    let mut rec = Rec { poison: cfg.poison, ..Rec::default() };
    let mut model = Vec::new();
    let rounds = 1 + ctx.choose(3);
    for _ in 0..rounds {
        ctx.span(|| {
            let tree = gen_tree(ctx, cfg, &pal);
            ctx.ev("tree", tree.size() as u64, tree.code(), || format!("{tree:?}"));
            let want = tree.model(MS::default(), cfg.poison, &mut model);
            let rej0 = rec.rejected;
            let r = guard(|| stylish::write!(rec, "{:s}", TV(&tree, &env)))?;
            for _ in rej0..rec.rejected {
                ctx.fault(F::FmtReject);
            }
            let (got, wanted) = (rec.cells(), seg_cells(&model));
            ctx.ev("cells", got.len() as u64, rec.rejected as u64, || show2(&got));
            ctx.cover(hbytes(&got.iter().map(|c| c.1.fg.wrapping_mul(51) ^ c.1.bg ^ c.1.it << 6).collect::<Vec<_>>()));
            ensure!(got == wanted, "wrong-style", "{tree:?} was written as {} but should be {}", show2(&got), show2(&wanted));
            let same = match (&r, want) {
                (Some(Ok(())), Ok(())) | (Some(Err(_)), Err(Stop::Err)) | (None, Err(Stop::Panic)) => true,
                _ => false,
            };
            ensure!(same, "wrong-result", "{tree:?} returned {r:?} (None: panicked), expected {want:?}");
            if want.is_ok() && tree.size() > 1 {
                ctx.probe("nested_value");
            }
            // The same through an I/O writer, piece by piece.
            if ctx.chance(1, 3) {
                let mut io = RecIo(Rec { poison: cfg.poison, ..Rec::default() }, ctx.choose(4));
                let mut m = Vec::new();
                let want = tree.model(MS::default(), cfg.poison, &mut m);
                let r = guard(|| stylish::io::Write::write_fmt(&mut io, stylish::format_args!("{:s}", TV(&tree, &env))).is_ok())?;
                // A short write may deliver part of a text that is then refused.
                if !cfg.poison || io.1 == 0 {
                    ensure!(io.0.cells() == seg_cells(&m), "wrong-style", "{tree:?} was written to an I/O writer as {} but should be {}", show2(&io.0.cells()), show2(&seg_cells(&m)));
                    ensure!(r == match want { Ok(()) => Some(true), Err(Stop::Err) => Some(false), Err(Stop::Panic) => None }, "wrong-result", "{tree:?} returned {r:?}");
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

/// C11: histories over a pool of attributed strings.
pub fn c11(ctx: &Ctx) -> R {
    let pal = Palette::gen(ctx);
    let cfg = TreeCfg { fail: ctx.chance(1, 2), panic: ctx.chance(1, 3), ..TreeCfg::default() };
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    let mut pool: Vec<(stylish::String, Vec<(u8, MS)>)> = vec![(stylish::String::new(), Vec::new())];
    let mut ops = ctx.small(1, 24);
    if ctx.chance(1, 300) {
        ops = 300 + ctx.choose(300);
    }
    for op in 0..ops {
        ctx.span(|| {
            ctx.refuel();
            let i = ctx.choose(pool.len());
            if pool[i].1.len() < 4000 && ctx.chance(1, 50_000) {
                // More segments than any counter or table is likely to hold.
                let (a, b) = (pal.style(ctx), pal.style(ctx));
                let n = [300, 1100, 5000, 35_000][ctx.choose(4)];
                ctx.probe("many_segments");
                ctx.ev("burst", i as u64, n, || format!("#{i} {n} times write_str(a, {a:?}), write_str(b, {b:?})"));
                for _ in 0..n {
                    let r = guard(|| pool[i].0.write_str("a", a.real()).is_ok() && pool[i].0.write_str("b", b.real()).is_ok())?;
                    ensure!(r == Some(true), "wrong-result", "write_str to a string failed");
                    pool[i].1.extend([(b'a', a), (b'b', b)]);
                }
            }
            match ctx.choose(11) {
                k @ 0..=2 => {
                    let t = if k == 2 && ctx.chance(1, 3) { String::new() } else { gen_text(ctx) };
                    let s = pal.style(ctx);
                    ctx.ev("write", i as u64, t.len() as u64, || format!("#{i} write_str({t:?}, {s:?})"));
                    let r = guard(|| pool[i].0.write_str(&t, s.real()))?;
                    ensure!(r == Some(Ok(())), "wrong-result", "write_str to a string failed");
                    pool[i].1.extend(t.bytes().map(|b| (b, s)));
                }
                3 => {
                    let (c, s) = (gen_char(ctx), pal.style(ctx));
                    ctx.ev("write", i as u64, c as u64, || format!("#{i} write_char({c:?}, {s:?})"));
                    let r = guard(|| pool[i].0.write_char(c, s.real()))?;
                    ensure!(r == Some(Ok(())), "wrong-result", "write_char to a string failed");
                    pool[i].1.extend(c.encode_utf8(&mut [0; 4]).bytes().map(|b| (b, s)));
                }
                4 | 5 => {
                    let tree = gen_tree(ctx, cfg, &pal);
                    ctx.ev("fmt", i as u64, tree.code(), || format!("#{i} write!({tree:?})"));
                    let mut m = Vec::new();
                    let want = tree.model(MS::default(), false, &mut m);
                    let ln = ctx.chance(1, 4);
                    let r = guard(|| if ln { stylish::writeln!(pool[i].0, "{:s}", TV(&tree, &env)) } else { stylish::write!(pool[i].0, "{:s}", TV(&tree, &env)) })?;
                    pool[i].1.extend(seg_cells(&m));
                    if ln && want.is_ok() {
                        pool[i].1.push((b'\n', MS::default()));
                    }
                    let same = matches!((&r, want), (Some(Ok(())), Ok(())) | (Some(Err(_)), Err(Stop::Err)) | (None, Err(Stop::Panic)));
                    ensure!(same, "wrong-result", "write! to a string returned {r:?}, expected {want:?}");
                }
                6 => {
                    let j = ctx.choose(pool.len());
                    // Repeated doubling is bounded so that every operation
                    // fits the step budget.
                    if pool[i].1.len() + pool[j].1.len() > 4000 {
                        return Ok(());
                    }
                    ctx.ev("append", i as u64, j as u64, || format!("#{i} append #{j}"));
                    let src = pool[j].clone();
                    let r = guard(|| stylish::write!(pool[i].0, "{:(fg=red)s}", src.0))?;
                    ensure!(r == Some(Ok(())), "wrong-result", "appending a string failed");
                    // An attributed string keeps its own styles.
                    pool[i].1.extend(src.1);
                    ctx.probe("appended_string");
                }
                7 => {
                    ctx.ev("clone", i as u64, 0, || format!("#{i} clone"));
                    ctx.fault(F::Fork);
                    let c = guard(|| pool[i].clone())?.unwrap();
                    if pool.len() < 4 && ctx.chance(2, 3) {
                        pool.push(c);
                    } else {
                        let j = ctx.choose(pool.len());
                        if ctx.chance(1, 2) {
                            // In place, over whatever was there.
                            guard(|| pool[j].0.clone_from(&c.0))?;
                            pool[j].1 = c.1;
                            ctx.probe("cloned_in_place");
                        } else {
                            pool[j] = c;
                        }
                    }
                }
                8 => {
                    let k = ctx.choose(3);
                    ctx.ev("format", i as u64, k as u64, || format!("#{i} rebuilt by way {k}"));
                    let s = match k {
                        0 => guard(|| pool[i].0.to_stylish_string())?,
                        1 => guard(|| stylish::format!("{:s}", pool[i].0))?,
                        _ => guard(|| stylish::format(stylish::format_args!("{:(bold)s}", &&pool[i].0)))?,
                    };
                    pool[i].0 = s.unwrap();
                }
                9 => {
                    // A rendering that fails part-way.
                    let n = pool[i].1.len();
                    let limit = ctx.choose(n + 1);
                    let mut r = Rec { limit: Some(limit), ..Rec::default() };
                    let out = guard(|| stylish::write!(r, "{:s}", pool[i].0))?;
                    ctx.ev("cut", i as u64, limit as u64, || format!("#{i} rendered to a writer refusing after {limit} bytes -> {out:?}"));
                    let got = r.cells();
                    ensure!(got.len() <= n && got[..] == pool[i].1[..got.len()], "wrong-replay", "a failed rendering delivered {} of {}", show2(&got), show2(&pool[i].1));
                    if r.rejected > 0 {
                        ctx.fault(F::FmtReject);
                        ensure!(out == Some(Err(std::fmt::Error)), "failure-not-reported", "a rejected rendering returned {out:?}");
                        ensure!(r.after_reject == 0, "continues-after-failure", "rendering went on after a rejection");
                    } else {
                        ensure!(out == Some(Ok(())) && got.len() == n, "lost-output", "rendering returned {out:?} with {} of {} bytes", got.len(), n);
                    }
                }
                _ => {
                    // Rendered to an adaptor = written to it directly.
                    if pool[i].1.len() > 20_000 && !ctx.chance(1, 3) {
                        return Ok(());
                    }
                    let kind = [DK::Ansi, DK::Html, DK::Plain, DK::IoAnsi, DK::IoPlain][ctx.choose(5)];
                    let a = Sink::new(ctx, kind.screen(), Faults::NONE);
                    let b = Sink::new(ctx, kind.screen(), Faults::NONE);
                    let (ha, hb) = (a.handle(), b.handle());
                    let (mut da, mut db) = (Dut::new(kind, a, 0), Dut::new(kind, b, 0));
                    let segs = merge(&pool[i].1);
                    da.string(&pool[i].0)?;
                    for (t, s) in &segs {
                        ctx.refuel();
                        db.op(&Op::All(t.clone(), *s), 0, &Env::NONE)?;
                    }
                    let _ = (da.finish()?, db.finish()?);
                    let (x, y) = (lk(&ha).bytes.clone(), lk(&hb).bytes.clone());
                    ctx.ev("render", i as u64, x.len() as u64, || format!("#{i} to {kind:?}: {}", tail(&x)));
                    ensure!(x == y, "wrong-replay", "rendered to {kind:?}: {:?}, writing the same text directly: {:?}", tail(&x), tail(&y));
                }
            }
            for (j, (s, m)) in pool.iter().enumerate() {
                // Long histories are looked at now and then, and at the end.
                if ops > 24 && op % 50 != 0 && op + 1 < ops {
                    continue;
                }
                let mut r = Rec::default();
                let out = guard(|| stylish::write!(r, "{:s}", s))?;
                let got = r.cells();
                ensure!(out == Some(Ok(())), "wrong-result", "rendering string #{j} returned {out:?}");
                ensure!(got == *m, "wrong-replay", "string #{j} replays {} but {} was recorded", show2(&got), show2(m));
            }
            ctx.cover(pool.iter().fold(7, |h, p| crate::ctx::hstep(h, p.1.len() as u64)));
            Ok(())
        })?;
    }
    Ok(())
}

pub fn merge(v: &[(u8, MS)]) -> Vec<(Vec<u8>, MS)> {
    let mut out: Vec<(Vec<u8>, MS)> = Vec::new();
    for &(b, s) in v {
        match out.last_mut() {
            Some((t, m)) if *m == s => t.push(b),
            _ => out.push((vec![b], s)),
        }
    }
    out
}

/// C12: the same styled text, however it arrives.
pub fn c12(ctx: &Ctx) -> R {
    const KINDS: [DK; 5] = [DK::IoAnsi, DK::Ansi, DK::Html, DK::Plain, DK::IoPlain];
    let kind = *ctx.pick(&KINDS);
    let pal = Palette::gen(ctx);
    let n = ctx.small(1, 8);
    let unstyled = ctx.chance(1, 8);
    let mut text: Vec<(String, MS)> = Vec::new();
    for _ in 0..n {
        ctx.span(|| {
            let s = if unstyled { MS::default() } else { pal.style(ctx) };
            let mut t = gen_text(ctx);
            if t.is_empty() {
                t.push('x');
            }
            match text.last_mut() {
                Some((u, m)) if *m == s => u.push_str(&t),
                _ => text.push((t, s)),
            }
        });
    }
    // One call per stretch of equal style, healthy sink.
    let a = Sink::new(ctx, kind.screen(), Faults::NONE);
    let ha = a.handle();
    let mut da = Dut::new(kind, a, 0);
    for (t, s) in &text {
        let o = da.op(&Op::All(t.clone().into_bytes(), *s), 0, &Env::NONE)?;
        ensure!(matches!(o, Out::Done), "wrong-result", "write_all on a healthy sink returned {}", o.show());
    }
    let f = da.finish()?;
    ensure!(f.is_ok(), "wrong-result", "finish on a healthy sink failed");
    let want = lk(&ha).bytes.clone();
    ctx.ev("reference", want.len() as u64, 0, || tail(&want));
    if unstyled && kind != DK::Html {
        let plain: Vec<u8> = text.iter().flat_map(|(t, _)| t.bytes()).collect();
        ensure!(want == plain, "not-transparent", "unstyled {:?} came out of {kind:?} as {:?}", tail(&plain), tail(&want));
        ctx.probe("unstyled_passthrough");
    }
    // Split, mixed, with empty writes, through a sink that stutters.
    let f = Faults::gen(ctx, Allow { transient: true, ..Allow::default() });
    let b = Sink::new(ctx, kind.screen(), f);
    let hb = b.handle();
    let mut db = Dut::new(kind, b, 1);
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    let mut put = |op: &Op| -> R {
        let flav = ctx.choose(FLAVORS) as u8;
        ctx.ev("op", crate::engine::op_code(op), flav as u64, || op.show());
        let o = db.op(op, flav, &env)?;
        ensure!(matches!(o, Out::Done), "wrong-result", "{} returned {} although the sink only stuttered", op.show(), o.show());
        Ok(())
    };
    for (t, s) in &text {
        let mut rest: &str = t;
        while !rest.is_empty() {
            let mut k = 1 + ctx.choose(rest.len().min(12));
            if ctx.chance(1, 3) {
                k = rest.len();
            }
            let byte_split = kind.io() && ctx.chance(1, 4);
            ctx.span(|| -> R {
                if ctx.chance(1, 6) {
                    let e = pal.style(ctx);
                    ctx.probe("empty_write_interspersed");
                    match ctx.choose(4) {
                        0 | 1 => put(&Op::All(Vec::new(), e))?,
                        2 => put(&Op::Fmt(Node::Abs(String::new(), e), 0))?,
                        _ => put(&Op::Fmt(Node::With(crate::tree::gen_re(ctx, 1), vec![Node::Text(String::new())]), 0))?,
                    }
                }
                Ok(())
            })?;
            if !byte_split {
                while !rest.is_char_boundary(k) {
                    k += 1;
                }
            }
            if byte_split {
                put(&Op::All(rest.as_bytes()[..k].to_vec(), *s))?;
                let mut k2 = k;
                while !rest.is_char_boundary(k2) {
                    k2 += 1;
                }
                if k2 > k {
                    put(&Op::Loop(rest.as_bytes()[k..k2].to_vec(), *s))?;
                    ctx.probe("split_inside_a_character");
                }
                rest = &rest[k2..];
                continue;
            }
            let piece = rest[..k].to_owned();
            rest = &rest[k..];
            let op = match ctx.choose(8) {
                0 => Op::All(piece.into_bytes(), *s),
                1 => Op::Loop(piece.into_bytes(), *s),
                2 => {
                    for c in piece.chars() {
                        put(&Op::Char(c, *s))?;
                    }
                    continue;
                }
                3 => Op::Fmt(Node::Abs(piece, *s), [0, 2, 3, 5][ctx.choose(4)]),
                4 => Op::Fmt(Node::With(crate::tree::Re::Full(*s), vec![Node::Text(piece)]), 0),
                5 => {
                    // An attributed string recorded in bits.
                    let mut segs = Vec::new();
                    for c in piece.chars() {
                        if ctx.chance(1, 4) {
                            segs.push((String::new(), pal.style(ctx)));
                        }
                        segs.push((c.to_string(), *s));
                    }
                    Op::Fmt(Node::Str(segs), 3)
                }
                6 => Op::Fmt(Node::Seq(piece.chars().map(|c| Node::AbsChar(c, *s)).collect()), 0),
                _ => Op::Fmt(
                    Node::With(crate::tree::Re::Full(*s), vec![Node::CoreText(piece), Node::Swallow(Box::new(Node::Fail))]),
                    2,
                ),
            };
            put(&op)?;
        }
    }
    if let Err(o) = db.finish()? {
        ensure!(false, "wrong-result", "finish returned {} although the sink only stuttered", o.show());
    }
    let got = lk(&hb).bytes.clone();
    ensure!(got == want, "depends-on-chunking", "{kind:?}: arriving in pieces {:?} came out as {:?}, in one piece as {:?}", text, tail(&got), tail(&want));
    ctx.cover(hbytes(&want));
    Ok(())
}

/// C20: one-shot rendering against streaming.
pub fn c20(ctx: &Ctx) -> R {
    let pal = Palette::gen(ctx);
    let failing = ctx.chance(1, 2);
    let cfg = TreeCfg { fail: failing, panic: failing && ctx.chance(1, 4), swallow: ctx.chance(1, 3), ..TreeCfg::default() };
    let env = Env { ctx: Some(ctx.clone()), hook: None };
    let tree = gen_tree(ctx, cfg, &pal);
    let tv = TV(&tree, &env);
    let mut m = Vec::new();
    let stop = tree.model(MS::default(), false, &mut m).err();
    let which = ctx.choose(4);
    let how = ctx.choose(4);
    ctx.ev("oneshot", (which << 4 | how) as u64, tree.code(), || format!("{} by way {how}: {tree:?}", ["ansi", "html", "plain", "attributed"][which]));
    let what = ["ansi", "html", "plain", "attributed string"][which];
    // Streaming, to the same kind of adaptor.
    let stream: String = match which {
        0 => {
            let mut w = stylish::ansi(String::new());
            let _ = guard(|| stylish::write!(w, "<{:(fg=blue)s}>", tv))?;
            w.finish().map_err(|_| crate::ctx::Violation { class: "wrong-result", msg: "finish failed".into() })?
        }
        1 => {
            let mut w = stylish::html(String::new());
            let _ = guard(|| stylish::write!(w, "<{:(fg=blue)s}>", tv))?;
            w.finish().map_err(|_| crate::ctx::Violation { class: "wrong-result", msg: "finish failed".into() })?
        }
        _ => {
            let mut w = stylish::plain(String::new());
            let _ = guard(|| stylish::write!(w, "<{:(fg=blue)s}>", tv))?;
            w.into_inner()
        }
    };
    let mut rs = Rec::default();
    let _ = guard(|| stylish::write!(rs, "<{:(fg=blue)s}>", tv))?;
    #[derive(Clone, Debug, PartialEq)]
    enum Got {
        Text(String),
        Cells(Vec<(u8, MS)>),
    }
    let cells = |s: stylish::String| {
        let mut r = Rec::default();
        let _ = stylish::write!(r, "{:s}", s);
        Got::Cells(r.cells())
    };
    let got = catch_unwind(AssertUnwindSafe(|| {
        use stylish::format_args as fa;
        match (which, how) {
            (0, 0) => Got::Text(stylish::ansi::format(fa!("<{:(fg=blue)s}>", tv))),
            (0, 1) => Got::Text(stylish::ansi::format!("<{:(fg=blue)s}>", tv)),
            (0, 2) => Got::Text(fa!("<{:(fg=blue)s}>", tv).to_ansi_string()),
            (0, _) => Got::Text(ToAnsiString::to_ansi_string(&&fa!("<{0:(fg=blue)s}>", tv))),
            (1, 0) => Got::Text(stylish::html::format(fa!("<{:(fg=blue)s}>", tv))),
            (1, 1) => Got::Text(stylish::html::format!("<{:(fg=blue)s}>", tv)),
            (1, 2) => Got::Text(fa!("<{:(fg=blue)s}>", tv).to_html_string()),
            (1, _) => Got::Text(ToHtmlString::to_html_string(&&fa!("<{0:(fg=blue)s}>", tv))),
            (2, 0) => Got::Text(stylish::plain::format(fa!("<{:(fg=blue)s}>", tv))),
            (2, 1) => Got::Text(stylish::plain::format!("<{:(fg=blue)s}>", tv)),
            (2, 2) => Got::Text(fa!("<{:(fg=blue)s}>", tv).to_plain_string()),
            (2, _) => Got::Text(ToPlainString::to_plain_string(&&fa!("<{0:(fg=blue)s}>", tv))),
            (_, 0) => cells(stylish::format(fa!("<{:(fg=blue)s}>", tv))),
            (_, 1) => cells(stylish::format!("<{:(fg=blue)s}>", tv)),
            (_, 2) => cells(fa!("<{:(fg=blue)s}>", tv).to_stylish_string()),
            (_, _) => cells(ToStylishString::to_stylish_string(&&fa!("<{0:(fg=blue)s}>", tv))),
        }
    }));
    ctx.ev("streamed", hbytes(stream.as_bytes()), rs.bytes.len() as u64, || tail(stream.as_bytes()));
    ctx.ev("gave", got.is_ok() as u64, stop.is_some() as u64, || format!("{:?}", got.as_ref().ok()));
    match (got, stop) {
        (Err(_), None) => {
            ensure!(false, "panic", "rendering {tree:?} to a string ({what}) panicked although nothing failed: {}", crate::dut::LAST_PANIC.with(|l| l.borrow().clone()));
        }
        (Err(p), Some(s)) => {
            ensure!((s == Stop::Panic) == p.is::<crate::ctx::SimPanic>(), "wrong-result", "{what}: the value stopped with {s:?} but the panic was another one");
            ctx.probe("oneshot_refused_partial_result");
        }
        (Ok(g), Some(s)) => ensure!(false, "truncated", "rendering {tree:?} ({what}) returned {g:?} although the value stopped with {s:?}"),
        (Ok(g), None) => {
            let want = if which == 3 { Got::Cells(rs.cells()) } else { Got::Text(stream) };
            ensure!(g == want, "differs-from-streaming", "{what}: one-shot gave {g:?}, streaming {want:?}");
            ctx.probe("oneshot_equals_streaming");
        }
    }
    // The values themselves.
    if stop.is_none() && ctx.chance(1, 2) {
        let g = guard(|| match which {
            0 => {
                let mut w = stylish::ansi(String::new());
                let _ = stylish::write!(w, "{:s}", tv);
                let streamed = w.finish().unwrap_or_default();
                let a = [tv.to_ansi_string(), stylish::ansi::format!("{:s}", tv), stylish::ansi::format(stylish::format_args!("{:s}", tv))];
                (a.concat(), streamed.repeat(3))
            }
            1 => {
                let mut w = stylish::html(String::new());
                let _ = stylish::write!(w, "{:s}", tv);
                let streamed = w.finish().unwrap_or_default();
                let a = [tv.to_html_string(), stylish::html::format!("{:s}", tv), stylish::html::format(stylish::format_args!("{:s}", tv))];
                (a.concat(), streamed.repeat(3))
            }
            2 => (tv.to_plain_string(), stylish::plain::format!("{:s}", tv)),
            _ => {
                // Attributed string, then each string form, is the same.
                let s = tv.to_stylish_string();
                (s.to_ansi_string() + &s.to_html_string(), tv.to_ansi_string() + &tv.to_html_string())
            }
        })?;
        let g = g.unwrap();
        ensure!(g.0 == g.1, "differs-from-streaming", "{what}: {:?} and {:?} differ", g.0, g.1);
        let plain: String = m.iter().map(|s| s.0.as_str()).collect();
        if which == 2 {
            ensure!(g.0 == plain, "wrong-output", "plain string {:?} is not the text {plain:?}", g.0);
        }
    }
    ctx.cover(hbytes(format!("{m:?}").as_bytes()) ^ ((which << 4 | how) as u64) ^ (stop.is_some() as u64) << 48);
    Ok(())
}
