//! Random programs of nested values (the `stylish::Display` implementations of
//! a run), the interpreter that models them, and generators for styles/text.

use crate::{
    ctx::{Ctx, SimPanic, F},
    screen::{COLORS, INTENSITIES, MS},
    sites,
    val::{gen_val, Val},
};
use std::{cell::RefCell, panic::resume_unwind};
use stylish::{
    Background, Display, Foreground, Formatter, Intensity, Restyle, Result as FResult, Style,
};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
/// Format-string attributes: 0 = absent, else index+1 into the colours that
/// format strings know / the intensities.
pub struct Attr {
    pub fg: u8,
    pub bg: u8,
    pub it: u8,
}
impl Attr {
    pub fn apply(self, mut s: MS) -> MS {
        if self.fg > 0 {
            s.fg = self.fg - 1
        }
        if self.bg > 0 {
            s.bg = self.bg - 1
        }
        if self.it > 0 {
            s.it = self.it - 1
        }
        s
    }
    pub fn of_index(i: usize) -> Attr {
        Attr {
            fg: (i / 40) as u8,
            bg: (i / 4 % 10) as u8,
            it: (i % 4) as u8,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Re {
    Fg(u8),
    Bg(u8),
    It(u8),
    Full(MS),
    Diff(Option<u8>, Option<u8>, Option<u8>),
    PairFI(u8, u8),
    PairBF(u8, u8),
    Nested(u8, u8, u8, u8),
    Triple(u8, u8, u8),
    SliceFg(Vec<u8>),
    SliceDyn(Vec<Re>),
    Opt(Option<u8>),
    Unit,
    Swap,
    Chain(Box<Re>, Box<Re>),
    Dyn(Box<Re>),
    Boxed(Box<Re>),
    Tup2(Box<Re>, Box<Re>),
    Tup3(Box<Re>, Box<Re>, Box<Re>),
    OptRe(Option<Box<Re>>),
    /// The difference from the first to the second style.
    From(MS, MS),
    /// Foregrounds only: which one is applied last?
    Fgs(u8, u8, u8),
}

/// A user-written restyle: swaps foreground and background.
#[derive(Clone, Copy)]
struct Swap;
impl Restyle for Swap {
    fn apply(&self, mut style: Style) -> Style {
        std::mem::swap(&mut style.foreground, &mut style.background);
        style
    }
}

fn c(i: u8) -> stylish::Color {
    COLORS[i as usize]
}
fn n(i: u8) -> Intensity {
    INTENSITIES[i as usize]
}

/// Any `Re` as one (dynamic) Restyle built from the library's own impls.
impl Restyle for Re {
    fn apply(&self, style: Style) -> Style {
        match self {
            Re::Fg(x) => style.with(Foreground(c(*x))),
            Re::Bg(x) => style.with(Background(c(*x))),
            Re::It(x) => style.with(n(*x)),
            Re::Full(m) => style.with(m.real()),
            Re::Diff(..) => style.with(self.diff()),
            Re::PairFI(a, b) => style.with((Foreground(c(*a)), n(*b))),
            Re::PairBF(a, b) => style.with((Background(c(*a)), Foreground(c(*b)))),
            Re::Nested(a, b, x, y) => {
                style.with(((Foreground(c(*a)), Background(c(*b))), (n(*x), Some(Foreground(c(*y))))))
            }
            Re::Triple(a, b, i) => style.with((Foreground(c(*a)), Background(c(*b)), n(*i))),
            Re::SliceFg(v) => {
                let v: Vec<_> = v.iter().map(|&x| Foreground(c(x))).collect();
                style.with(&v[..])
            }
            Re::SliceDyn(v) => {
                let v: Vec<&dyn Restyle> = v.iter().map(|x| x as &dyn Restyle).collect();
                style.with(&v[..])
            }
            Re::Opt(x) => style.with(x.map(|x| Foreground(c(x)))),
            Re::Unit => style.with(()),
            Re::Swap => style.with(Swap),
            Re::Chain(a, b) => style.with(&**a).with(&**b),
            Re::Dyn(a) => style.with(&&**a as &dyn Restyle),
            Re::Boxed(a) => style.with(Box::new(&**a) as Box<dyn Restyle + '_>),
            Re::Tup2(a, b) => style.with((&**a, &**b)),
            Re::Tup3(a, b, c) => style.with((&**a, &**b, &**c)),
            Re::OptRe(a) => style.with(a.as_ref().map(|a| &**a)),
            Re::From(a, b) => style.with(b.real().diff_from(a.real())),
            Re::Fgs(x, y, z) => style.with((Foreground(c(*x)), Foreground(c(*y)), Foreground(c(*z)))),
        }
    }
}

impl Re {
    fn diff(&self) -> stylish::StyleDiff {
        let mut d = stylish::StyleDiff::default();
        if let Re::Diff(f, b, i) = self {
            d.foreground = f.map(c);
            d.background = b.map(c);
            d.intensity = i.map(n);
        }
        d
    }
    pub fn model(&self, mut s: MS) -> MS {
        match self {
            Re::Fg(x) => s.fg = *x,
            Re::Bg(x) => s.bg = *x,
            Re::It(x) => s.it = *x,
            Re::Full(m) => s = *m,
            Re::Diff(f, b, i) => {
                s.fg = f.unwrap_or(s.fg);
                s.bg = b.unwrap_or(s.bg);
                s.it = i.unwrap_or(s.it)
            }
            Re::PairFI(a, b) => (s.fg, s.it) = (*a, *b),
            Re::PairBF(a, b) => (s.bg, s.fg) = (*a, *b),
            Re::Nested(_, b, x, y) => (s.fg, s.bg, s.it) = (*y, *b, *x),
            Re::Triple(a, b, i) => (s.fg, s.bg, s.it) = (*a, *b, *i),
            Re::SliceFg(v) => s.fg = v.last().copied().unwrap_or(s.fg),
            Re::SliceDyn(v) => s = v.iter().fold(s, |s, r| r.model(s)),
            Re::Opt(x) => s.fg = x.unwrap_or(s.fg),
            Re::Unit => {}
            Re::Swap => std::mem::swap(&mut s.fg, &mut s.bg),
            Re::Chain(a, b) => s = b.model(a.model(s)),
            Re::Dyn(a) | Re::Boxed(a) => s = a.model(s),
            Re::Tup2(a, b) => s = b.model(a.model(s)),
            Re::Tup3(a, b, c) => s = c.model(b.model(a.model(s))),
            Re::OptRe(a) => s = a.as_ref().map_or(s, |a| a.model(s)),
            Re::From(a, b) => {
                s.fg = if a.fg == b.fg { s.fg } else { b.fg };
                s.bg = if a.bg == b.bg { s.bg } else { b.bg };
                s.it = if a.it == b.it { s.it } else { b.it };
            }
            Re::Fgs(_, _, z) => s.fg = *z,
        }
        s
    }
}

#[derive(Debug)]
pub enum Node {
    Text(String),
    CoreText(String),
    CoreChar(char),
    Abs(String, MS),
    AbsChar(char, MS),
    With(Re, Vec<Node>),
    /// format_args!("{:(attributes)s}", child)
    Attr(usize, Box<Node>),
    /// format_args!("{:flags(attributes)}", value)
    Std(usize, VBox),
    /// A format string with several children.
    Tmpl(usize, Vec<Node>),
    /// An attributed string recorded from segments.
    Str(Vec<(String, MS)>),
    /// The same, recorded beforehand.
    Pre(PreStr),
    /// stylish::format!("{:s}", child), then "{:s}".
    ToStr(Box<Node>),
    /// stylish::writeln! on the formatter, without and with a child.
    Ln(Option<Box<Node>>),
    /// core::write! on the formatter.
    CoreFmt(String, char, i16),
    /// format_args! passed as a value.
    Args(Box<Node>),
    /// stylish::Write::write_fmt on the formatter.
    WriteFmt(Box<Node>),
    /// Display through reference layers / a generic stylish::Write.
    Refs(Box<Node>),
    Seq(Vec<Node>),
    /// The enclosing value ignores the failure of the child.
    Swallow(Box<Node>),
    /// The enclosing value catches a panic of the child and carries on.
    Catch(Box<Node>),
    Fail,
    Panic,
    /// Runs the environment's hook (nested use of other adaptors).
    Hook,
}

/// An attributed string recorded before the run of the values.
pub struct PreStr(Vec<(String, MS)>, stylish::String);
impl PreStr {
    pub fn new(segs: Vec<(String, MS)>) -> Self {
        let mut s = stylish::String::new();
        for (t, m) in &segs {
            let _ = stylish::Write::write_str(&mut s, t, m.real());
        }
        PreStr(segs, s)
    }
}
impl std::fmt::Debug for PreStr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

pub struct VBox(pub Val);
impl std::fmt::Debug for VBox {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        // Not the value's own formatting, which counts and fails.
        match &self.0 {
            Val::Flags(v) => write!(f, "Flags(pad {}, fail at {:?})", v.pad, v.fail_at),
            v => write!(f, "{v:?}"),
        }
    }
}

pub struct Env<'a> {
    pub ctx: Option<Ctx>,
    pub hook: Option<&'a dyn Fn()>,
}
impl Env<'_> {
    pub const NONE: Env<'static> = Env { ctx: None, hook: None };
}

/// A node as a stylish value.
pub struct TV<'a, 'e>(pub &'a Node, pub &'e Env<'e>);

impl Display for TV<'_, '_> {
    fn fmt(&self, f: &mut Formatter<'_>) -> FResult {
        self.0.run(self.1, f)
    }
}

impl Node {
    pub fn run(&self, env: &Env<'_>, f: &mut Formatter<'_>) -> FResult {
        match self {
            Node::Text(s) => f.write_str(s),
            Node::CoreText(s) => core::fmt::Write::write_str(f, s),
            Node::CoreChar(ch) => core::fmt::Write::write_char(f, *ch),
            Node::Abs(s, m) => stylish::Write::write_str(f, s, m.real()),
            Node::AbsChar(ch, m) => stylish::Write::write_char(f, *ch, m.real()),
            Node::With(re, kids) => {
                match re {
                    Re::Fg(x) => run_all(kids, env, &mut f.with(Foreground(c(*x)))),
                    Re::Bg(x) => run_all(kids, env, &mut f.with(Background(c(*x)))),
                    Re::It(x) => run_all(kids, env, &mut f.with(n(*x))),
                    Re::Full(m) => run_all(kids, env, &mut f.with(m.real())),
                    Re::Diff(..) => run_all(kids, env, &mut f.with(re.diff())),
                    Re::PairFI(a, b) => run_all(kids, env, &mut f.with((Foreground(c(*a)), n(*b)))),
                    Re::Unit => run_all(kids, env, &mut f.with(())),
                    Re::Chain(a, b) => run_all(kids, env, &mut f.with(&**a).with(&**b)),
                    re => run_all(kids, env, &mut f.with(re)),
                }
            }
            Node::Attr(i, kid) => sites::attr_s(*i, f, &TV(kid, env)),
            Node::Std(i, v) => sites::attr_std(*i, f, &v.0),
            Node::Tmpl(i, kids) => {
                let tvs: [TV<'_, '_>; 12] = std::array::from_fn(|i| TV(kids.get(i).unwrap_or(&Node::Fail), env));
                let mut ds: [&dyn Display; 12] = [&TV(&Node::Fail, &Env::NONE); 12];
                for (d, t) in ds.iter_mut().zip(&tvs) {
                    *d = t;
                }
                sites::template(*i, f, &ds[..kids.len()])
            }
            Node::Str(segs) => {
                let mut s = stylish::String::new();
                for (t, m) in segs {
                    stylish::Write::write_str(&mut s, t, m.real())?;
                }
                s.fmt(f)
            }
            Node::Pre(p) => p.1.fmt(f),
            Node::Ln(None) => stylish::writeln!(f),
            Node::Ln(Some(kid)) => stylish::writeln!(f, "{:s}", TV(kid, env)),
            Node::CoreFmt(t, ch, i) => core::fmt::Write::write_fmt(f, core::format_args!("{t}{ch:>3}\n{i:#x}")),
            Node::ToStr(kid) => {
                let s = stylish::format!("{:s}", TV(kid, env));
                f.write_fmt(stylish::format_args!("{:s}", s))
            }
            Node::Args(kid) => {
                let tv = TV(kid, env);
                f.write_fmt(stylish::format_args!("{:s}", stylish::format_args!("{:s}", tv)))
            }
            Node::WriteFmt(kid) => {
                stylish::Write::write_fmt(f, stylish::format_args!("{:s}", TV(kid, env)))
            }
            Node::Refs(kid) => {
                fn gen<D: Display + ?Sized>(d: &D, f: &mut Formatter<'_>) -> FResult {
                    d.fmt(f)
                }
                let tv = TV(kid, env);
                let d: &dyn Display = &&&tv;
                gen(d, f)
            }
            Node::Seq(kids) => run_all(kids, env, f),
            Node::Swallow(kid) => {
                let _ = kid.run(env, f);
                Ok(())
            }
            Node::Catch(kid) => {
                match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| kid.run(env, f))) {
                    Ok(r) => r,
                    Err(p) if p.is::<SimPanic>() => Ok(()),
                    Err(p) => resume_unwind(p),
                }
            }
            Node::Fail => {
                if let Some(c) = &env.ctx {
                    c.fault(F::DisplayError);
                }
                Err(core::fmt::Error)
            }
            Node::Panic => {
                if let Some(c) = &env.ctx {
                    c.fault(F::DisplayPanic);
                }
                resume_unwind(Box::new(SimPanic(0)))
            }
            Node::Hook => {
                if let Some(h) = env.hook {
                    h()
                }
                Ok(())
            }
        }
    }

    /// The reference interpreter. A write of text containing POISON fails when
    /// `poison` is set (a recording writer rejects it).
    pub fn model(&self, s: MS, poison: bool, out: &mut Vec<(String, MS)>) -> Result<(), Stop> {
        let mut w = |t: &str, s: MS| {
            if poison && t.contains(POISON) {
                return Err(Stop::Err);
            }
            if poison && t.contains(DEADLY) {
                return Err(Stop::Panic);
            }
            out.push((t.to_owned(), s));
            Ok(())
        };
        match self {
            Node::Text(t) | Node::CoreText(t) => w(t, s),
            Node::CoreChar(ch) => w(&ch.to_string(), s),
            Node::Abs(t, m) => w(t, *m),
            Node::AbsChar(ch, m) => w(&ch.to_string(), *m),
            Node::With(re, kids) => {
                let s = re.model(s);
                kids.iter().try_for_each(|k| k.model(s, poison, out))
            }
            Node::Attr(i, kid) => kid.model(Attr::of_index(*i).apply(s), poison, out),
            Node::Std(i, v) => {
                let s = sites::STD_ATTRS[*i].apply(s);
                let mut o = String::new();
                let r = sites::attr_std_text(*i, &v.0, &mut o);
                w(&o, s)?;
                r.map_err(|_| Stop::Err)
            }
            Node::Tmpl(i, kids) => {
                for p in sites::TEMPLATES[*i].1 {
                    match p {
                        sites::Piece::L(t) => out.push((t.to_string(), s)),
                        sites::Piece::C(k, a) => kids[*k].model(a.apply(s), poison, out)?,
                    }
                }
                Ok(())
            }
            Node::Str(segs) | Node::Pre(PreStr(segs, _)) => segs.iter().try_for_each(|(t, m)| w(t, *m)),
            Node::CoreFmt(t, ch, i) => {
                // In the pieces in which std hands it over.
                w(t, s)?;
                w("  ", s)?;
                w(&ch.to_string(), s)?;
                w(&format!("\n{i:#x}"), s)
            }
            Node::Ln(None) => w("\n", s),
            Node::Ln(Some(kid)) => {
                kid.model(s, poison, out)?;
                out.push(("\n".to_owned(), s));
                Ok(())
            }
            Node::ToStr(kid) => {
                // Rendered on its own first: absolute styles from the default.
                let mut inner = Vec::new();
                kid.model(MS::default(), false, &mut inner)?;
                inner.iter().try_for_each(|(t, m)| w(t, *m))
            }
            Node::Args(k) | Node::WriteFmt(k) | Node::Refs(k) => k.model(s, poison, out),
            Node::Seq(kids) => kids.iter().try_for_each(|k| k.model(s, poison, out)),
            Node::Swallow(k) => match k.model(s, poison, out) {
                Err(Stop::Err) => Ok(()),
                r => r,
            },
            Node::Catch(k) => match k.model(s, poison, out) {
                Err(Stop::Panic) => Ok(()),
                r => r,
            },
            Node::Fail => Err(Stop::Err),
            Node::Panic => Err(Stop::Panic),
            Node::Hook => Ok(()),
        }
    }
    pub fn code(&self) -> u64 {
        crate::ctx::hbytes(format!("{self:?}").as_bytes())
    }
    /// About how much rendering it writes.
    fn weight(&self) -> usize {
        1 + match self {
            Node::Text(t) | Node::CoreText(t) | Node::Abs(t, _) | Node::CoreFmt(t, ..) => t.len(),
            Node::Str(segs) | Node::Pre(PreStr(segs, _)) => segs.iter().map(|(t, _)| 1 + t.len()).sum(),
            Node::With(_, k) | Node::Seq(k) => k.iter().map(Node::weight).fold(0, usize::saturating_add),
            Node::Tmpl(i, k) => {
                let w: Vec<usize> = k.iter().map(Node::weight).collect();
                sites::TEMPLATES[*i].1.iter().map(|p| match p {
                    sites::Piece::L(t) => t.len(),
                    sites::Piece::C(k, _) => w[*k],
                }).fold(0, usize::saturating_add)
            }
            Node::Attr(_, k)
            | Node::Ln(Some(k))
            | Node::ToStr(k)
            | Node::Args(k)
            | Node::WriteFmt(k)
            | Node::Refs(k)
            | Node::Swallow(k)
            | Node::Catch(k) => k.weight(),
            _ => 16,
        }
    }
    /// Shortens long texts; whether there were any.
    fn shorten(&mut self) -> bool {
        let cut = |t: &mut String| {
            let long = t.len() > 200;
            if long {
                let mut n = t.len() / 4;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
            }
            long
        };
        match self {
            Node::Text(t) | Node::CoreText(t) | Node::Abs(t, _) | Node::CoreFmt(t, ..) => cut(t),
            Node::Str(segs) => segs.iter_mut().fold(false, |b, (t, _)| cut(t) | b),
            Node::Pre(PreStr(segs, _)) => {
                let cut = segs.iter_mut().fold(false, |b, (t, _)| cut(t) | b);
                if cut {
                    *self = Node::Pre(PreStr::new(std::mem::take(segs)));
                }
                cut
            }
            Node::With(_, k) | Node::Tmpl(_, k) | Node::Seq(k) => k.iter_mut().fold(false, |b, k| k.shorten() | b),
            Node::Attr(_, k)
            | Node::Ln(Some(k))
            | Node::ToStr(k)
            | Node::Args(k)
            | Node::WriteFmt(k)
            | Node::Refs(k)
            | Node::Swallow(k)
            | Node::Catch(k) => k.shorten(),
            _ => false,
        }
    }
    pub fn size(&self) -> usize {
        1 + match self {
            Node::With(_, k) | Node::Tmpl(_, k) | Node::Seq(k) => k.iter().map(Node::size).sum(),
            Node::Attr(_, k)
            | Node::Ln(Some(k))
            | Node::ToStr(k)
            | Node::Args(k)
            | Node::WriteFmt(k)
            | Node::Refs(k)
            | Node::Swallow(k)
            | Node::Catch(k) => k.size(),
            _ => 0,
        }
    }
}

/// Recording writers refuse text with this character...
pub const POISON: char = '\u{2620}';
/// ... and panic at text with this one.
pub const DEADLY: char = '\u{2622}';

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stop {
    Err,
    Panic,
}

fn run_all(kids: &[Node], env: &Env<'_>, f: &mut Formatter<'_>) -> FResult {
    for k in kids {
        k.run(env, f)?;
    }
    Ok(())
}

/// What a run's trees may contain.
#[derive(Clone, Copy, Default)]
pub struct TreeCfg {
    pub fail: bool,
    pub panic: bool,
    pub swallow: bool,
    pub poison: bool,
    pub hook: bool,
    /// Nothing that allocates while it is being formatted.
    pub noalloc: bool,
}

/// The styles of a run: a small pool, anything, or small steps.
pub struct Palette {
    mode: usize,
    pool: Vec<MS>,
    last: RefCell<MS>,
}

pub fn any_style(ctx: &Ctx) -> MS {
    MS {
        fg: ctx.choose(17) as u8,
        bg: ctx.choose(17) as u8,
        it: ctx.choose(3) as u8,
    }
}

impl Palette {
    pub fn gen(ctx: &Ctx) -> Palette {
        ctx.span(|| {
            let mode = ctx.choose(4);
            let k = 1 + ctx.choose(4);
            let mut pool = vec![MS::default()];
            if mode == 0 {
                for _ in 0..k {
                    pool.push(match ctx.choose(3) {
                        0 => any_style(ctx),
                        1 => MS { fg: ctx.choose(17) as u8, ..MS::default() },
                        _ => MS { it: ctx.choose(3) as u8, bg: ctx.choose(4) as u8, fg: 0 },
                    });
                }
            }
            Palette {
                mode,
                pool,
                last: RefCell::new(MS::default()),
            }
        })
    }
    pub fn style(&self, ctx: &Ctx) -> MS {
        let mut l = self.last.borrow_mut();
        let s = match self.mode {
            0 => *ctx.pick(&self.pool),
            1 => any_style(ctx),
            2 => {
                // One step away from the last one.
                let mut s = *l;
                match ctx.choose(6) {
                    0 => {}
                    1 => s.fg = ctx.choose(17) as u8,
                    2 => s.bg = ctx.choose(17) as u8,
                    3 => s.it = ctx.choose(3) as u8,
                    4 => s = MS::default(),
                    _ => {
                        s.fg = ctx.choose(17) as u8;
                        s.it = ctx.choose(3) as u8
                    }
                }
                s
            }
            _ => {
                // Partial styles: each attribute default half of the time.
                let half = |n: usize| if ctx.chance(1, 2) { ctx.choose(n) as u8 } else { 0 };
                MS { fg: half(17), bg: half(17), it: half(3) }
            }
        };
        *l = s;
        s
    }
}

pub fn gen_char(ctx: &Ctx) -> char {
    match ctx.choose(16) {
        // Anything but ESC, which is the terminal's own.
        13 => return char::from(ctx.choose(27) as u8),
        14 => return char::from(28 + ctx.choose(100) as u8),
        15 => {
            let (lo, n) = *ctx.pick(&[(0x80u32, 0x780), (0x800, 0x5000), (0x2000, 0x70), (0xe000, 0x1ff0), (0xfff0, 16), (0x1f000, 0xfff), (0x10fff0, 16), (0x80, 0x10ff80), (0x80, 0xff80)]);
            // The recording writers' own signs are only used on purpose.
            return char::from_u32(lo + ctx.choose(n) as u32).filter(|c| ![POISON, DEADLY].contains(c)).unwrap_or('?');
        }
        _ => {}
    }
    *ctx.pick(&[
        'a', 'b', 'm', '1', ';', '[', '<', '>', '&', '"', '\'', ' ', '\n', 'é', '漢', '🦀', '0', '{', '/', '=', '\u{7f}', '\u{0}', '\u{a0}', 'Z', '\u{feff}', '\u{301}', '\u{2028}', '\u{fffd}', '\r', '\t', 'ß', '\'',
    ])
}

pub fn gen_text(ctx: &Ctx) -> String {
    const WORDS: [&str; 40] = [
        "a", "foo", "", "bar ", "<b>x</b>", "&amp;", "5 < 6 & 7 > 2", "it's \"q\"", "é", "漢字", "🦀", "31m", "[0m", ";1", "\n", "line\r\nline", "</span>", "0", "{}", "\t", " ", "m", "longer piece of text, with words", "ÿ\u{2028}",
        "\r", "\r\n", "x\r", "  x  ", "&lt;", "&#x27;", "<!-- x -->", "a=b;c", "\u{feff}", "e\u{301}", "\\", "%s", "&", "<", "span", "\u{0}",
    ];
    ctx.span(|| match ctx.choose(16) {
        0..=7 => (*ctx.pick(&WORDS)).to_owned(),
        8 => String::new(),
        9..=11 => {
            let k = 1 + ctx.choose(6);
            (0..k).map(|_| gen_char(ctx)).collect()
        }
        12 | 13 => {
            let k = 1 + ctx.choose(4);
            (0..k).map(|_| *ctx.pick(&WORDS)).collect()
        }
        14 => {
            let w = *ctx.pick(&WORDS);
            let k = ctx.choose(40);
            w.repeat(k)
        }
        _ => {
            // Long texts: cross any plausible internal buffer size.
            if ctx.chance(1, 8) {
                let k = match ctx.choose(24) {
                    c @ 0..=22 => [130, 260, 520, 1030, 2050, 4100, 8200, 9000][c % 8],
                    _ => [16_400, 33_000, 66_000][ctx.choose(3)],
                };
                let w: String = (0..1 + ctx.choose(3)).map(|_| gen_char(ctx)).collect();
                let mut s = w.repeat(k / w.len());
                if ctx.chance(1, 2) {
                    // Exactly at, just below or above a power of two.
                    let n = (1usize << (k.ilog2())) + ctx.choose(5) - 2;
                    let mut n2 = n.min(s.len());
                    while !s.is_char_boundary(n2) {
                        n2 -= 1;
                    }
                    s.truncate(n2);
                    let c = if ctx.chance(1, 2) { 'a' } else { '<' };
                    s.extend(std::iter::repeat_n(c, n - n2));
                } else if ctx.chance(1, 2) {
                    let mut at = ctx.choose(s.len() + 1);
                    while !s.is_char_boundary(at) {
                        at -= 1;
                    }
                    s.insert(at, gen_char(ctx));
                } else {
                    s.push(gen_char(ctx));
                }
                s
            } else {
                let k = if ctx.chance(1, 3) { [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255][ctx.choose(16)] } else { ctx.choose(70) };
                gen_char(ctx).to_string().repeat(k)
            }
        }
    })
}

/// A few, rarely many.
fn some(ctx: &Ctx) -> usize {
    if ctx.chance(1, 12) {
        ctx.choose(40)
    } else {
        ctx.choose(5)
    }
}

pub fn gen_re(ctx: &Ctx, depth: usize) -> Re {
    let col = || ctx.choose(17) as u8;
    let int = || ctx.choose(3) as u8;
    let opt = |n: usize| if ctx.chance(1, 2) { Some(ctx.choose(n) as u8) } else { None };
    let sub = || Box::new(gen_re(ctx, depth - 1));
    match ctx.choose(if depth > 0 { 23 } else { 14 }) {
        0 | 13 => Re::Fg(col()),
        1 => Re::Bg(col()),
        2 => Re::It(int()),
        3 => Re::Full(any_style(ctx)),
        4 => Re::Diff(opt(17), opt(17), opt(3)),
        5 => Re::PairFI(col(), int()),
        6 => Re::PairBF(col(), col()),
        7 => Re::Triple(col(), col(), int()),
        8 => Re::SliceFg((0..some(ctx)).map(|_| col()).collect()),
        9 => Re::Opt(opt(17)),
        10 => Re::Unit,
        11 => Re::Swap,
        12 => Re::Nested(col(), col(), int(), col()),
        14 => Re::SliceDyn((0..some(ctx)).map(|_| gen_re(ctx, depth - 1)).collect()),
        15 => Re::Chain(sub(), sub()),
        16 => Re::Dyn(sub()),
        17 => Re::Boxed(sub()),
        18 => Re::Tup2(sub(), sub()),
        19 => Re::Tup3(sub(), sub(), sub()),
        20 => Re::OptRe(if ctx.chance(1, 2) { Some(sub()) } else { None }),
        21 => Re::From(any_style(ctx), any_style(ctx)),
        _ => Re::Fgs(col(), col(), col()),
    }
}

/// Only restyles that the harness itself applies without allocating.
fn gen_re_flat(ctx: &Ctx) -> Re {
    loop {
        let r = gen_re(ctx, 0);
        if !matches!(r, Re::SliceFg(_)) {
            return r;
        }
    }
}

fn kids(ctx: &Ctx, cfg: TreeCfg, pal: &Palette, depth: usize, lo: usize) -> Vec<Node> {
    let k = lo + ctx.choose(4);
    (0..k).map(|_| gen_node(ctx, cfg, pal, depth)).collect()
}

pub fn gen_node(ctx: &Ctx, cfg: TreeCfg, pal: &Palette, depth: usize) -> Node {
    ctx.span(|| {
        let kid = |ctx: &Ctx| Box::new(gen_node(ctx, cfg, pal, depth - 1));
        if cfg.poison && ctx.chance(1, 12) {
            let c = if cfg.panic && ctx.chance(1, 4) { DEADLY } else { POISON };
            return match ctx.choose(6) {
                0 | 1 => Node::Text(format!("a{c}")),
                2 => Node::CoreText(format!("a{c}")),
                3 => Node::CoreChar(c),
                4 => Node::Abs(format!("a{c}"), pal.style(ctx)),
                _ => Node::AbsChar(c, pal.style(ctx)),
            };
        }
        if cfg.fail && ctx.chance(1, 16) {
            return Node::Fail;
        }
        if cfg.panic && ctx.chance(1, 24) {
            return Node::Panic;
        }
        if cfg.hook && ctx.chance(1, 5) {
            return Node::Hook;
        }
        let leaf = depth == 0 || ctx.chance(2, 5);
        if leaf {
            match ctx.choose(10) {
                0..=2 => Node::Text(gen_text(ctx)),
                8 => Node::Ln(None),
                9 => Node::CoreFmt(gen_text(ctx), gen_char(ctx), ctx.choose(65536) as u16 as i16),
                3 => Node::CoreText(gen_text(ctx)),
                4 => Node::CoreChar(gen_char(ctx)),
                5 => Node::Abs(gen_text(ctx), pal.style(ctx)),
                6 => Node::AbsChar(gen_char(ctx), pal.style(ctx)),
                _ => {
                    let i = ctx.choose(sites::N_STD);
                    let mut v = gen_val(ctx, cfg.fail);
                    if let (true, Val::Flags(f)) = (cfg.noalloc, &mut v) {
                        f.ctx = None;
                    }
                    Node::Std(i, VBox(v))
                }
            }
        } else {
            match ctx.choose(if cfg.swallow { 18 + cfg.panic as usize } else { 16 }) {
                0..=2 => Node::With(if cfg.noalloc { gen_re_flat(ctx) } else { gen_re(ctx, 2) }, kids(ctx, cfg, pal, depth - 1, 1)),
                3..=5 => Node::Attr(ctx.choose(400), kid(ctx)),
                6 | 7 => {
                    let i = ctx.choose(sites::TEMPLATES.len());
                    let k = sites::TEMPLATES[i].0;
                    Node::Tmpl(i, (0..k).map(|_| gen_node(ctx, cfg, pal, depth - 1)).collect())
                }
                8 => {
                    let k = ctx.choose(5);
                    let segs = (0..k).map(|_| (gen_text(ctx), pal.style(ctx))).collect();
                    if cfg.noalloc || ctx.chance(1, 2) {
                        Node::Pre(PreStr::new(segs))
                    } else {
                        Node::Str(segs)
                    }
                }
                9 if !cfg.noalloc => {
                    // A failing child would (rightly) panic here.
                    let quiet = TreeCfg { fail: false, panic: false, swallow: cfg.swallow, ..TreeCfg::default() };
                    Node::ToStr(Box::new(gen_node(ctx, quiet, pal, depth - 1)))
                }
                10 => Node::Args(kid(ctx)),
                11 => Node::WriteFmt(kid(ctx)),
                12 => Node::Refs(kid(ctx)),
                14 => Node::Ln(Some(kid(ctx))),
                16 | 17 => Node::Swallow(kid(ctx)),
                18 => Node::Catch(kid(ctx)),
                _ => Node::Seq(kids(ctx, cfg, pal, depth - 1, 2)),
            }
        }
    })
}

/// About the most one value writes.
const MAX_WEIGHT: usize = 150_000;

pub fn gen_tree(ctx: &Ctx, cfg: TreeCfg, pal: &Palette) -> Node {
    let depth = ctx.choose(5);
    let mut node = gen_node(ctx, cfg, pal, depth);
    // Long texts referenced again and again multiply.
    while node.weight() > MAX_WEIGHT && node.shorten() {}
    if node.weight() > MAX_WEIGHT {
        node = Node::Text("a".to_owned());
    }
    if ctx.chance(1, 150) {
        // Values nested far deeper than anybody does by hand.
        ctx.probe("deep_nesting");
        let levels = if ctx.chance(1, 6) { 120 + ctx.choose(180) } else { 5 + ctx.choose(120) };
        // All of one kind, or mixed.
        let only = if ctx.chance(1, 3) { Some([0, 1, 2, 3, 4, 7][ctx.choose(6)]) } else { None };
        for _ in 0..levels {
            node = ctx.span(|| match only.unwrap_or_else(|| ctx.choose(8)) {
                0 => Node::Attr(ctx.choose(400), Box::new(node)),
                1 => Node::Args(Box::new(node)),
                2 => Node::WriteFmt(Box::new(node)),
                3 => Node::Refs(Box::new(node)),
                k => {
                    let re = if k < 6 || cfg.noalloc { gen_re_flat(ctx) } else { gen_re(ctx, 1) };
                    let mut kids = vec![node];
                    if ctx.chance(1, 3) {
                        kids.push(Node::Text(gen_char(ctx).to_string()));
                    }
                    if ctx.chance(1, 3) {
                        kids.insert(0, Node::CoreChar(gen_char(ctx)));
                    }
                    Node::With(re, kids)
                }
            });
        }
    }
    node
}

