//! Values for the standard formatting traits. Formatting goes straight to
//! std's implementation for the wrapped value, so the same `Val` works in
//! every format-string site.

use crate::ctx::{Ctx, F};
use core::fmt;
use std::sync::atomic::{AtomicU32, Ordering};

pub enum Val {
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Str(String),
    Char(char),
    Bool(bool),
    Vec(Vec<i32>),
    Rec(Rec),
    Opt(Option<&'static str>),
    Flags(Flags),
}

#[derive(Debug)]
#[allow(dead_code)]
pub struct Rec {
    pub name: &'static str,
    pub n: i16,
    pub inner: (u8, f32),
}

/// Prints the formatting flags it sees, in several pieces, and may fail after
/// a number of pieces.
pub struct Flags {
    pub pad: bool,
    pub fail_at: Option<u32>,
    pub ctx: Option<Ctx>,
    pub calls: AtomicU32,
}

impl Flags {
    fn go(&self, tag: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.calls.fetch_add(1, Ordering::Relaxed);
        let mut n = 0;
        let mut at = |f: &mut fmt::Formatter<'_>, w: &mut dyn FnMut(&mut fmt::Formatter<'_>) -> fmt::Result| {
            if self.fail_at == Some(n) {
                if let Some(c) = &self.ctx {
                    c.fault(F::DisplayError);
                }
                return Err(fmt::Error);
            }
            n += 1;
            w(f)
        };
        at(f, &mut |f| f.write_str(tag))?;
        let fill = f.fill();
        at(f, &mut |f| f.write_char(fill))?;
        let (a, w, p) = (
            match f.align() {
                None => "-",
                Some(fmt::Alignment::Left) => "<",
                Some(fmt::Alignment::Right) => ">",
                Some(fmt::Alignment::Center) => "^",
            },
            f.width(),
            f.precision(),
        );
        at(f, &mut |f| f.write_str(a))?;
        at(f, &mut |f| f.write_fmt(format_args!("w{w:?}p{p:?}")))?;
        let (sp, sm, al, z) = (
            f.sign_plus(),
            f.sign_minus(),
            f.alternate(),
            f.sign_aware_zero_pad(),
        );
        at(f, &mut |f| {
            f.write_fmt(format_args!("{}{}{}{}", sp as u8, sm as u8, al as u8, z as u8))
        })?;
        if self.pad {
            at(f, &mut |f| f.pad("pädded"))?;
            at(f, &mut |f| f.pad_integral(true, "0q", "77"))?;
        }
        at(f, &mut |f| f.write_str("."))
    }
}
use fmt::Write as _;

macro_rules! via {
    ($tr:ident, $tag:literal, [$($int:ident)*] [$($flt:ident)*] [$($other:ident)*]) => {
        impl fmt::$tr for Val {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self {
                    $(Val::$int(x) => fmt::$tr::fmt(x, f),)*
                    $(Val::$flt(x) => fmt::$tr::fmt(x, f),)*
                    $(Val::$other(x) => fmt::$tr::fmt(x, f),)*
                    Val::Flags(x) => x.go($tag, f),
                    #[allow(unreachable_patterns)]
                    _ => f.pad($tag),
                }
            }
        }
    };
}
via!(Display, "D", [I8 I16 I32 I64 I128 U8 U32 U64 U128] [F32 F64] [Str Char Bool]);
via!(Debug, "?", [I8 I16 I32 I64 I128 U8 U32 U64 U128] [F32 F64] [Str Char Bool Vec Rec Opt]);
via!(Octal, "o", [I8 I16 I32 I64 I128 U8 U32 U64 U128] [] []);
via!(LowerHex, "x", [I8 I16 I32 I64 I128 U8 U32 U64 U128] [] []);
via!(UpperHex, "X", [I8 I16 I32 I64 I128 U8 U32 U64 U128] [] []);
via!(Binary, "b", [I8 I16 I32 I64 I128 U8 U32 U64 U128] [] []);
via!(LowerExp, "e", [I8 I16 I32 I64 U8 U32 U64] [F32 F64] []);
via!(UpperExp, "E", [I8 I16 I32 I64 U8 U32 U64] [F32 F64] []);
impl fmt::Pointer for Val {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Val::Flags(x) => x.go("p", f),
            // A fixed address: real ones would not replay.
            _ => fmt::Pointer::fmt(&(0x1234_5678usize as *const u8), f),
        }
    }
}

pub fn gen_val(ctx: &Ctx, may_fail: bool) -> Val {
    const INTS: [i128; 14] = [
        0, 1, -1, 7, 42, -42, 127, -128, 255, 65535, -65536, 1 << 40, i64::MAX as i128, i64::MIN as i128,
    ];
    const FLTS: [f64; 14] = [
        0.0, -0.0, 1.0, -1.5, 0.1, 1e-7, 123456.789, 1e21, -9.999, 0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 2.0e-310,
    ];
    const STRS: [&str; 10] = ["", "a", "hello", "<&>\"'", "é漢字", "two\nlines", "tab\t\"q\"", "0", "a longer piece of text", "🦀x"];
    let bits = || (ctx.choose(1 << 31) as u64) << 33 ^ (ctx.choose(1 << 31) as u64) << 9 ^ ctx.choose(1 << 9) as u64;
    let i = if ctx.chance(1, 4) { bits() as i64 as i128 } else { *ctx.pick(&INTS) };
    let flt = || if ctx.chance(1, 4) { f64::from_bits(bits()) } else { *ctx.pick(&FLTS) };
    let text = || if ctx.chance(1, 4) { crate::tree::gen_text(ctx) } else { (*ctx.pick(&STRS)).to_owned() };
    match ctx.choose(20) {
        0 => Val::I32(i as i32),
        1 => Val::Str(text()),
        2 => Val::F64(flt()),
        3 => Val::I8(i as i8),
        4 => Val::I16(i as i16),
        5 => Val::I64(i as i64),
        6 => Val::I128(i.wrapping_mul(i)),
        7 => Val::U8(i as u8),
        8 => Val::U32(i as u32),
        9 => Val::U64(i as u64),
        10 => Val::U128(i as u128),
        11 => Val::F32(flt() as f32),
        12 => Val::Char(*ctx.pick(&['a', '<', 'é', '\n', '"', '🦀'])),
        13 => Val::Bool(ctx.chance(1, 2)),
        14 => Val::Vec((0..if ctx.chance(1, 40) { ctx.choose(60) } else { ctx.choose(4) }).map(|k| (i as i32).wrapping_add(k as i32)).collect()),
        15 => Val::Rec(Rec { name: *ctx.pick(&STRS), n: i as i16, inner: (i as u8, *ctx.pick(&FLTS) as f32) }),
        16 => Val::Opt(if ctx.chance(1, 2) { Some("x\"y") } else { None }),
        _ => Val::Flags(Flags {
            pad: ctx.chance(1, 2),
            fail_at: if may_fail && ctx.chance(1, 2) { Some(ctx.choose(9) as u32) } else { None },
            ctx: Some(ctx.clone()),
            calls: AtomicU32::new(0),
        }),
    }
}
