//! C17: an allocator that refuses. While the window is open every request for
//! memory by this thread is counted, or refused.

use crate::{
    ctx::{Ctx, F, R},
    dut::guard,
    screen::MS,
    sink::tail,
    tree::{gen_tree, Env, Node, Palette, TreeCfg, TV},
};
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    fmt, io,
};

pub struct Alloc;
thread_local! {
    static MODE: Cell<u8> = const { Cell::new(0) };
    static COUNT: Cell<u32> = const { Cell::new(0) };
}
const OFF: u8 = 0;
const COUNTING: u8 = 1;
const REFUSING: u8 = 2;

fn refuse() -> bool {
    MODE.try_with(|m| {
        if m.get() == OFF {
            return false;
        }
        COUNT.with(|c| c.set(c.get() + 1));
        m.get() == REFUSING
    })
    .unwrap_or(false)
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
}

/// Memory set aside beforehand; answers follow a script drawn beforehand.
struct Fixed<'a> {
    buf: &'a mut Vec<u8>,
    script: &'a [u8],
    at: &'a mut usize,
    grow: bool,
}
impl Fixed<'_> {
    fn put(&mut self, b: &[u8]) -> bool {
        // The first rendering, not observed, finds out how much there is.
        let room = if self.grow { 1 << 26 } else { self.buf.capacity() };
        if room.saturating_sub(self.buf.len()) < b.len() {
            return false;
        }
        self.buf.extend_from_slice(b);
        true
    }
}
impl io::Write for Fixed<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let a = self.script.get(*self.at).copied().unwrap_or(0);
        *self.at += 1;
        if a == 255 {
            return Err(io::ErrorKind::Interrupted.into());
        }
        let n = if a == 0 { b.len() } else { b.len().min(a as usize) };
        if self.put(&b[..n]) {
            Ok(n)
        } else {
            Err(io::ErrorKind::StorageFull.into())
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl fmt::Write for Fixed<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        *self.at += 1;
        if self.put(s.as_bytes()) {
            Ok(())
        } else {
            Err(fmt::Error)
        }
    }
}

pub enum AOp {
    All(Vec<u8>, MS),
    Char(char, MS),
    Write(Vec<u8>, MS),
    Fmt(Node),
    Ln(Node),
    Mixed(i32, f64, &'static str),
    Flush,
}

fn io_ops<W: stylish::io::Write>(w: &mut W, ops: &[AOp]) -> bool {
    let env = Env::NONE;
    for op in ops {
        let ok = match op {
            AOp::All(b, s) => w.write_all(b, s.real()).is_ok(),
            AOp::Char(c, s) => w.by_ref().write_all(c.encode_utf8(&mut [0; 4]).as_bytes(), s.real()).is_ok(),
            AOp::Write(b, s) => match w.write(b, s.real()) {
                Ok(_) => true,
                Err(e) => e.kind() == io::ErrorKind::Interrupted,
            },
            AOp::Fmt(n) => stylish::write!(w, "{:(fg=red)s}", TV(n, &env)).is_ok(),
            AOp::Ln(n) => stylish::writeln!(w, "<{0:s}> {0:>8(bold)s}", TV(n, &env)).is_ok(),
            AOp::Mixed(i, f, s) => stylish::write!(w, "{i:>+9(fg=blue)x} {f:^12.3(bg=red,faint)e} {s:?} {{{:#?}}}", (1u8, "t")).is_ok(),
            AOp::Flush => w.flush().is_ok(),
        };
        if !ok {
            return false;
        }
    }
    true
}
fn fmt_ops<W: stylish::Write>(w: &mut W, ops: &[AOp]) -> bool {
    let env = Env::NONE;
    for op in ops {
        let t = |b| std::str::from_utf8(b).unwrap_or("?");
        let ok = match op {
            AOp::All(b, s) | AOp::Write(b, s) => w.write_str(t(b), s.real()).is_ok(),
            AOp::Char(c, s) => w.write_char(*c, s.real()).is_ok(),
            AOp::Fmt(n) => stylish::write!(w, "{:(fg=red)s}", TV(n, &env)).is_ok(),
            AOp::Ln(n) => stylish::writeln!(w, "<{0:s}> {0:>8(bold)s}", TV(n, &env)).is_ok(),
            AOp::Mixed(i, f, s) => stylish::write!(w, "{i:>+9(fg=blue)x} {f:^12.3(bg=red,faint)e} {s:?} {{{:#?}}}", (1u8, "t")).is_ok(),
            AOp::Flush => true,
        };
        if !ok {
            return false;
        }
    }
    true
}

pub fn c17(ctx: &Ctx) -> R {
    let pal = Palette::gen(ctx);
    let kind = ctx.choose(5);
    let cfg = TreeCfg { noalloc: true, ..TreeCfg::default() };
    let n = ctx.small(1, 8);
    let ops: Vec<AOp> = (0..n)
        .map(|_| {
            ctx.span(|| match ctx.choose(9) {
                0 | 1 => AOp::All(crate::tree::gen_text(ctx).into_bytes(), pal.style(ctx)),
                2 => AOp::Char(crate::tree::gen_char(ctx), pal.style(ctx)),
                3 => AOp::Write(crate::tree::gen_text(ctx).into_bytes(), pal.style(ctx)),
                4 | 5 => AOp::Fmt(gen_tree(ctx, cfg, &pal)),
                6 => AOp::Ln(gen_tree(ctx, cfg, &pal)),
                7 => AOp::Mixed(ctx.choose(1000) as i32 - 500, [0.5, -1.25e9, f64::NAN, 0.0][ctx.choose(4)], *ctx.pick(&["", "<&>", "q\"q"])),
                _ => AOp::Flush,
            })
        })
        .collect();
    let script: Vec<u8> = if ctx.chance(1, 2) {
        let rate = 1 + ctx.choose(8);
        (0..64)
            .map(|_| {
                if !ctx.chance(rate, 10) {
                    return 0;
                }
                match ctx.choose(4) {
                    0 => {
                        ctx.fault(F::Interrupted);
                        255
                    }
                    k => {
                        ctx.fault(F::Short);
                        k as u8
                    }
                }
            })
            .collect()
    } else {
        Vec::new()
    };
    ctx.ev("ops", n as u64, kind as u64, || format!("adaptor {kind}, {n} operations, script {script:?}"));
    let names = ["io::Ansi", "io::Plain", "Ansi", "Html", "Plain"];
    let go = |mode: u8, room: usize| -> R<(Vec<u8>, bool, u32)> {
        let mut buf: Vec<u8> = Vec::with_capacity(room);
        let mut at = 0;
        COUNT.with(|c| c.set(0));
        let r = guard(|| {
            let s = Fixed { buf: &mut buf, script: &script, at: &mut at, grow: mode == OFF };
            MODE.with(|m| m.set(mode));
            let ok = match kind {
                0 => {
                    let mut w = stylish::io::ansi(s);
                    io_ops(&mut w, &ops) && w.finish().is_ok()
                }
                1 => {
                    let mut w = stylish::io::plain(s);
                    io_ops(&mut w, &ops) && {
                        w.into_inner();
                        true
                    }
                }
                2 => {
                    let mut w = stylish::ansi(s);
                    fmt_ops(&mut w, &ops) && w.finish().is_ok()
                }
                3 => {
                    let mut w = stylish::html(s);
                    fmt_ops(&mut w, &ops) && w.finish().is_ok()
                }
                _ => {
                    let mut w = stylish::plain(s);
                    fmt_ops(&mut w, &ops) && {
                        w.into_inner();
                        true
                    }
                }
            };
            MODE.with(|m| m.set(OFF));
            ok
        });
        MODE.with(|m| m.set(OFF));
        let ok = r?.unwrap_or(false);
        Ok((buf, ok, COUNT.with(|c| c.get())))
    };
    let (a, ok, _) = go(OFF, 1 << 12)?;
    ensure!(ok, "wrong-result", "{}: an operation failed on a sink that only stutters", names[kind]);
    let (b, ok, count) = go(COUNTING, a.len() + 4096)?;
    ctx.fault(F::AllocWindow);
    ctx.ev("count", count as u64, b.len() as u64, || format!("{count} requests, {} bytes of output", b.len()));
    ensure!(ok && count == 0, "allocates", "{}: {count} requests for memory", names[kind]);
    let (c, ok, _) = go(REFUSING, a.len() + 4096)?;
    ensure!(ok && a == b && a == c, "wrong-output", "{}: output differs without an allocator: {:?} vs {:?}", names[kind], tail(&a), tail(&c));
    ctx.cover(crate::ctx::hbytes(&a));
    Ok(())
}
