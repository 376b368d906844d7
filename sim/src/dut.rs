//! The adaptors under test behind one set of operations.

use crate::{
    ctx::{BudgetPanic, Ctx, SimPanic, Violation, R},
    screen::{Kind, MS},
    sink::Sink,
    tree::{Env, Node, Stop, TV},
};
use std::{
    cell::RefCell,
    fmt,
    io::Error,
    panic::{catch_unwind, AssertUnwindSafe},
};
use stylish::Style;

thread_local!(pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) });

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum DK {
    IoAnsi,
    IoPlain,
    Ansi,
    Html,
    Plain,
    /// A user-written stylish::io::Write with only `write` and `flush`.
    UserIo,
    /// A user-written stylish::Write with only `write_str`.
    UserFmt,
}
pub const ALL_DK: [DK; 7] = [DK::IoAnsi, DK::Ansi, DK::Html, DK::IoPlain, DK::Plain, DK::UserIo, DK::UserFmt];

impl DK {
    pub fn io(self) -> bool {
        matches!(self, DK::IoAnsi | DK::IoPlain | DK::UserIo)
    }
    pub fn screen(self) -> Kind {
        match self {
            DK::IoAnsi | DK::Ansi => Kind::Ansi,
            DK::Html => Kind::Html,
            _ => Kind::Plain,
        }
    }
    /// Styles are visible in what the sink gets.
    pub fn styled(self) -> bool {
        !matches!(self, DK::IoPlain | DK::Plain)
    }
}

/// A user-written writer; the style of each call is noted next to its bytes.
#[derive(Clone)]
pub struct User(pub Sink);
impl User {
    fn pen(&self, style: Style) {
        crate::sink::lk(&self.0.h).screen.pen = MS::of(style).vis();
    }
}
pub struct UserIo(pub User);
pub struct UserFmt(pub User);
impl stylish::io::Write for UserIo {
    fn write(&mut self, buf: &[u8], style: Style) -> std::io::Result<usize> {
        self.0.pen(style);
        std::io::Write::write(&mut self.0 .0, buf)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        std::io::Write::flush(&mut self.0 .0)
    }
}
impl stylish::Write for UserFmt {
    fn write_str(&mut self, s: &str, style: Style) -> fmt::Result {
        self.0.pen(style);
        fmt::Write::write_str(&mut self.0 .0, s)
    }
}
impl Clone for UserIo {
    fn clone(&self) -> Self {
        UserIo(self.0.clone())
    }
}
impl Clone for UserFmt {
    fn clone(&self) -> Self {
        UserFmt(self.0.clone())
    }
}

#[derive(Clone)]
pub enum Dut {
    IoAnsi(stylish::io::Ansi<Sink>),
    IoPlain(stylish::io::Plain<Sink>),
    Ansi(stylish::Ansi<Sink>),
    Html(stylish::Html<Sink>),
    Plain(stylish::Plain<Sink>),
    UserIo(UserIo),
    UserFmt(UserFmt),
}

#[derive(Debug)]
pub enum Op {
    /// A single `write` (text sinks: write_str).
    Write(Vec<u8>, MS),
    /// The whole buffer (text sinks: write_str).
    All(Vec<u8>, MS),
    Char(char, MS),
    /// A caller's own loop around `write`.
    Loop(Vec<u8>, MS),
    Fmt(Node, u8),
    Flush,
}

impl Op {
    pub fn show(&self) -> String {
        let t = |b: &[u8]| crate::sink::tail(b);
        match self {
            Op::Write(b, s) => format!("write({:?}, {s:?})", t(b)),
            Op::All(b, s) => format!("write_all/write_str({:?}, {s:?})", t(b)),
            Op::Char(c, s) => format!("write_char({c:?}, {s:?})"),
            Op::Loop(b, s) => format!("write loop({:?}, {s:?})", t(b)),
            Op::Fmt(n, f) => {
                let mut d = format!("{n:?}");
                if d.len() > 700 {
                    let mut a = 700;
                    while !d.is_char_boundary(a) {
                        a -= 1
                    }
                    d.truncate(a);
                    d.push_str("..");
                }
                format!("formatted write (form {f}) {d}")
            }
            Op::Flush => "flush".into(),
        }
    }
    /// The text this operation should deliver, with a style per byte.
    pub fn want(&self) -> Want {
        let mut w = Want::default();
        match self {
            Op::Write(b, s) | Op::All(b, s) | Op::Loop(b, s) => w.push(b, *s),
            Op::Char(c, s) => w.push(c.encode_utf8(&mut [0; 4]).as_bytes(), *s),
            Op::Fmt(n, form) => {
                let mut segs = Vec::new();
                if *form == FORM_TEMPLATE {
                    w.push(b"<", MS::default());
                }
                let base = if *form == FORM_TEMPLATE { MS { fg: 3, ..MS::default() } } else { MS::default() };
                let r = n.model(base, false, &mut segs);
                for (t, s) in &segs {
                    w.push(t.as_bytes(), *s);
                }
                match r {
                    Err(s) => w.stop = Some(s),
                    Ok(()) => match *form {
                        FORM_LN => w.push(b"\n", MS::default()),
                        FORM_TEMPLATE => w.push(b"{>", MS::default()),
                        _ => {}
                    },
                }
            }
            Op::Flush => {}
        }
        w
    }
}

pub const FORM_LN: u8 = 1;
pub const FORM_TEMPLATE: u8 = 4;
pub const FORMS: usize = 6;

#[derive(Default, Debug, Clone)]
pub struct Want {
    pub bytes: Vec<u8>,
    pub styles: Vec<MS>,
    pub stop: Option<Stop>,
    /// Number of pieces with text (bound on the style switches).
    pub pieces: usize,
}
impl Want {
    fn push(&mut self, b: &[u8], s: MS) {
        self.bytes.extend_from_slice(b);
        self.styles.extend(b.iter().map(|_| s));
        self.pieces += 1;
    }
}

#[derive(Debug)]
pub enum Out {
    N(usize),
    Done,
    Io(Error),
    Fmt,
    /// A panic that the simulator itself injected, caught by the caller.
    Panic,
}
impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Io(e) => format!("Err({:?}: {e})", e.kind()),
            o => format!("{o:?}"),
        }
    }
    fn io(r: std::io::Result<()>) -> Out {
        match r {
            Ok(()) => Out::Done,
            Err(e) => Out::Io(e),
        }
    }
    fn fmt(r: fmt::Result) -> Out {
        match r {
            Ok(()) => Out::Done,
            Err(fmt::Error) => Out::Fmt,
        }
    }
}

/// Runs library code. Panics injected by the simulator come back as None, any
/// other panic (and running out of simulated steps) is a violation.
pub fn guard<T>(f: impl FnOnce() -> T) -> R<Option<T>> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(Some(t)),
        Err(p) => {
            if p.is::<SimPanic>() {
                Ok(None)
            } else if p.is::<BudgetPanic>() {
                Err(Violation {
                    class: "no-progress",
                    msg: "the operation did not end within the step budget".into(),
                })
            } else if let Ok(v) = p.downcast::<Violation>() {
                Err(*v)
            } else {
                Err(Violation {
                    class: "panic",
                    msg: format!("unexpected panic: {}", LAST_PANIC.with(|l| l.borrow().clone())),
                })
            }
        }
    }
}

pub const FLAVORS: usize = 6;

trait Inherent {
    fn inh(&mut self, a: stylish::Arguments<'_>) -> Out;
}
macro_rules! inherent {
    ($($t:ty => $f:ident),*) => {$(
        impl Inherent for $t {
            fn inh(&mut self, a: stylish::Arguments<'_>) -> Out {
                Out::$f(<$t>::write_fmt(self, a))
            }
        }
    )*};
}
inherent!(stylish::io::Ansi<Sink> => io, stylish::io::Plain<Sink> => io, stylish::Ansi<Sink> => fmt, stylish::Html<Sink> => fmt, stylish::Plain<Sink> => fmt);
impl Inherent for UserIo {
    fn inh(&mut self, a: stylish::Arguments<'_>) -> Out {
        Out::io(stylish::io::Write::write_fmt(self, a))
    }
}
impl Inherent for UserFmt {
    fn inh(&mut self, a: stylish::Arguments<'_>) -> Out {
        Out::fmt(stylish::Write::write_fmt(self, a))
    }
}

macro_rules! forms {
    ($w:expr, $form:expr, $tv:expr) => {
        match $form {
            0 => stylish::write!($w, "{:s}", $tv),
            FORM_LN => stylish::writeln!($w, "{:s}", $tv),
            2 => {
                let tv = $tv;
                $w.write_fmt(stylish::format_args!("{tv:s}"))
            }
            3 => stylish::write!($w, "{:s}", stylish::format_args!("{:s}", $tv)),
            FORM_TEMPLATE => stylish::write!($w, "<{x:(fg=green)s}{{>", x = $tv),
            _ => stylish::write!($w, "{0:>5s}", $tv),
        }
    };
}

fn io_prim<W: stylish::io::Write + ?Sized>(w: &mut W, op: &Op, env: &Env<'_>) -> Out {
    match op {
        Op::Write(b, s) => match w.write(b, s.real()) {
            Ok(n) => Out::N(n),
            Err(e) => Out::Io(e),
        },
        Op::All(b, s) => Out::io(w.write_all(b, s.real())),
        Op::Char(c, s) => Out::io(w.write_all(c.encode_utf8(&mut [0; 4]).as_bytes(), s.real())),
        Op::Loop(b, s) => {
            let mut b = &b[..];
            while !b.is_empty() {
                match w.write(b, s.real()) {
                    Ok(0) => return Out::Io(std::io::ErrorKind::WriteZero.into()),
                    Ok(n) => b = &b[n.min(b.len())..],
                    Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                    Err(e) => return Out::Io(e),
                }
            }
            Out::Done
        }
        Op::Fmt(n, form) => Out::io(forms!(w, *form, TV(n, env))),
        Op::Flush => Out::io(w.flush()),
    }
}
fn text(b: &[u8]) -> &str {
    std::str::from_utf8(b).expect("text sinks get text")
}
fn fmt_prim<W: stylish::Write + ?Sized>(w: &mut W, op: &Op, env: &Env<'_>) -> Out {
    match op {
        Op::Write(b, s) | Op::All(b, s) | Op::Loop(b, s) => Out::fmt(w.write_str(text(b), s.real())),
        Op::Char(c, s) => Out::fmt(w.write_char(*c, s.real())),
        Op::Fmt(n, form) => {
            Out::fmt(forms!(w, *form, TV(n, env)))
        }
        Op::Flush => Out::Done,
    }
}

/// Through a trait object, plain or behind more references.
pub fn dyn_io(w: &mut dyn stylish::io::Write, op: &Op, flav: u8, env: &Env<'_>) -> Out {
    match flav {
        0 | 1 => io_prim(w, op, env),
        _ => {
            let mut w = w;
            io_layers(&mut w, op, flav - 1, env)
        }
    }
}
fn io_op<W: stylish::io::Write + Inherent>(w: &mut W, op: &Op, flav: u8, env: &Env<'_>) -> Out {
    match (flav, op) {
        (5, Op::Fmt(n, 0)) => w.inh(stylish::format_args!("{:s}", TV(n, env))),
        (5, op) => io_prim(w, op, env),
        _ => io_layers(w, op, flav, env),
    }
}
pub fn io_layers<W: stylish::io::Write>(w: &mut W, op: &Op, flav: u8, env: &Env<'_>) -> Out {
    match flav {
        0 => io_prim(w, op, env),
        1 => io_prim(&mut &mut *w, op, env),
        2 => io_prim::<dyn stylish::io::Write>(w, op, env),
        3 => io_prim(stylish::io::Write::by_ref(w), op, env),
        4 => {
            let mut d: &mut dyn stylish::io::Write = w;
            io_prim(&mut &mut d, op, env)
        }
        _ => unreachable!(),
    }
}
fn fmt_op<W: stylish::Write + Inherent>(w: &mut W, op: &Op, flav: u8, env: &Env<'_>) -> Out {
    match (flav, op) {
        (5, Op::Fmt(n, 0)) => w.inh(stylish::format_args!("{:s}", TV(n, env))),
        (5, op) => fmt_prim(w, op, env),
        _ => fmt_layers(w, op, flav, env),
    }
}
pub fn fmt_layers<W: stylish::Write>(w: &mut W, op: &Op, flav: u8, env: &Env<'_>) -> Out {
    match flav {
        0 => fmt_prim(w, op, env),
        1 => fmt_prim(&mut &mut *w, op, env),
        2 => fmt_prim::<dyn stylish::Write>(w, op, env),
        3 => fmt_prim(&mut &mut &mut *w, op, env),
        4 => {
            let mut d: &mut dyn stylish::Write = w;
            fmt_prim(&mut &mut d, op, env)
        }
        _ => unreachable!(),
    }
}

impl Dut {
    pub fn new(k: DK, sink: Sink, ctor: u8) -> Dut {
        let short = ctor == 0;
        match k {
            DK::IoAnsi if ctor == 2 => Dut::IoAnsi(sink.as_default(<stylish::io::Ansi<Sink>>::default)),
            DK::IoAnsi if short => Dut::IoAnsi(stylish::io::ansi(sink)),
            DK::IoAnsi => Dut::IoAnsi(stylish::io::Ansi::new(sink)),
            DK::IoPlain if ctor == 2 => Dut::IoPlain(sink.as_default(<stylish::io::Plain<Sink>>::default)),
            DK::IoPlain if short => Dut::IoPlain(stylish::io::plain(sink)),
            DK::IoPlain => Dut::IoPlain(stylish::io::Plain::new(sink)),
            DK::Ansi if ctor == 2 => Dut::Ansi(sink.as_default(<stylish::Ansi<Sink>>::default)),
            DK::Ansi if short => Dut::Ansi(stylish::ansi(sink)),
            DK::Ansi => Dut::Ansi(stylish::Ansi::new(sink)),
            DK::Html if ctor == 2 => Dut::Html(sink.as_default(<stylish::Html<Sink>>::default)),
            DK::Html if short => Dut::Html(stylish::html(sink)),
            DK::Html => Dut::Html(stylish::Html::new(sink)),
            DK::Plain if ctor == 2 => Dut::Plain(sink.as_default(<stylish::Plain<Sink>>::default)),
            DK::Plain if short => Dut::Plain(stylish::plain(sink)),
            DK::Plain => Dut::Plain(stylish::Plain::new(sink)),
            DK::UserIo => Dut::UserIo(UserIo(User(sink))),
            DK::UserFmt => Dut::UserFmt(UserFmt(User(sink))),
        }
    }
    /// `clone_from` of the adaptor itself.
    pub fn copy(&mut self, o: &Dut) {
        match (self, o) {
            (Dut::IoAnsi(a), Dut::IoAnsi(b)) => a.clone_from(b),
            (Dut::IoPlain(a), Dut::IoPlain(b)) => a.clone_from(b),
            (Dut::Ansi(a), Dut::Ansi(b)) => a.clone_from(b),
            (Dut::Html(a), Dut::Html(b)) => a.clone_from(b),
            (Dut::Plain(a), Dut::Plain(b)) => a.clone_from(b),
            (a, b) => *a = b.clone(),
        }
    }
    pub fn op(&mut self, op: &Op, flav: u8, env: &Env<'_>) -> R<Out> {
        let r = guard(|| match self {
            Dut::IoAnsi(w) => io_op(w, op, flav, env),
            Dut::IoPlain(w) => io_op(w, op, flav, env),
            Dut::UserIo(w) => io_op(w, op, flav, env),
            Dut::Ansi(w) => fmt_op(w, op, flav, env),
            Dut::Html(w) => fmt_op(w, op, flav, env),
            Dut::Plain(w) => fmt_op(w, op, flav, env),
            Dut::UserFmt(w) => fmt_op(w, op, flav, env),
        })?;
        Ok(r.unwrap_or(Out::Panic))
    }
    /// Ok(Ok(sink)), Ok(Err(how it failed)).
    pub fn finish(self) -> R<Result<Sink, Out>> {
        let r = guard(|| match self {
            Dut::IoAnsi(w) => w.finish().map_err(Out::Io),
            Dut::IoPlain(w) => Ok(w.into_inner()),
            Dut::Ansi(w) => w.finish().map_err(|_| Out::Fmt),
            Dut::Html(w) => w.finish().map_err(|_| Out::Fmt),
            Dut::Plain(w) => Ok(w.into_inner()),
            Dut::UserIo(w) => Ok(w.0 .0),
            Dut::UserFmt(w) => Ok(w.0 .0),
        })?;
        Ok(r.unwrap_or(Err(Out::Panic)))
    }
}

/// Bytes for an operation: text for text sinks, now and then raw bytes for
/// byte sinks.
pub fn gen_bytes(ctx: &Ctx, k: DK) -> Vec<u8> {
    if k.io() && ctx.chance(1, 10) {
        return (0..ctx.choose(6))
            .map(|_| match ctx.choose(8) {
                7 => match ctx.choose(256) as u8 {
                    // The terminal's own.
                    0x1b if k != DK::IoPlain => b'?',
                    b => b,
                },
                i => [0x80u8, 0xff, 0xc3, b'm', b'a', 0x00, 0xe6][i],
            })
            .collect();
    }
    if matches!(k, DK::IoPlain | DK::Plain | DK::Html) && ctx.chance(1, 16) {
        return format!("\x1b[3{}m{}\x1b", ctx.choose(8), crate::tree::gen_char(ctx)).into_bytes();
    }
    crate::tree::gen_text(ctx).into_bytes()
}

impl Dut {
    /// Renders an attributed string.
    pub fn string(&mut self, s: &stylish::String) -> R<Out> {
        self.args(stylish::format_args!("{:s}", s))
    }
    pub fn args(&mut self, a: stylish::Arguments<'_>) -> R<Out> {
        let r = guard(|| match self {
            Dut::IoAnsi(w) => w.inh(a),
            Dut::IoPlain(w) => w.inh(a),
            Dut::UserIo(w) => w.inh(a),
            Dut::Ansi(w) => w.inh(a),
            Dut::Html(w) => w.inh(a),
            Dut::Plain(w) => w.inh(a),
            Dut::UserFmt(w) => w.inh(a),
        })?;
        Ok(r.unwrap_or(Out::Panic))
    }
}
