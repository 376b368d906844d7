//! One entry per property.

use crate::{
    ctx::{Ctx, R},
    dut::{ALL_DK, DK},
    engine::{self, Cfg},
    p_alloc, p_diff, p_macro, p_style, p_tree,
    sink::Allow,
    tree::TreeCfg,
};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&Ctx) -> R,
    /// Runs: quick, thorough.
    pub runs: (u64, u64),
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}

const T: TreeCfg = TreeCfg { fail: false, panic: false, swallow: false, poison: false, hook: false, noalloc: false };

fn c01(ctx: &Ctx) -> R {
    engine::run(
        ctx,
        Cfg {
            kinds: &[DK::IoAnsi],
            allow: Allow { transient: true, fatal: true, panic: false, flush: true },
            tree: T,
            max_ops: 24,
            sessions: 2,
            finish_faults: false,
            fmt_w: 2,
        },
    )
}
fn c02(ctx: &Ctx) -> R {
    engine::run(
        ctx,
        Cfg { kinds: &[DK::Ansi], allow: Allow { transient: false, fatal: true, panic: false, flush: false }, tree: T, max_ops: 24, sessions: 2, finish_faults: false, fmt_w: 2 },
    )
}
fn c03(ctx: &Ctx) -> R {
    engine::run(
        ctx,
        Cfg { kinds: &[DK::Html], allow: Allow { transient: false, fatal: true, panic: false, flush: false }, tree: T, max_ops: 24, sessions: 2, finish_faults: true, fmt_w: 2 },
    )
}
fn c04(ctx: &Ctx) -> R {
    engine::run(
        ctx,
        Cfg {
            kinds: &[DK::IoPlain, DK::Plain],
            allow: Allow { transient: true, fatal: true, panic: false, flush: true },
            tree: T,
            max_ops: 20,
            sessions: 2,
            finish_faults: false,
            fmt_w: 3,
        },
    )
}
fn c05(ctx: &Ctx) -> R {
    engine::run(
        ctx,
        Cfg {
            kinds: &[DK::IoAnsi, DK::Ansi, DK::Html],
            allow: Allow { transient: true, fatal: true, panic: ctx.chance(1, 4), flush: true },
            tree: TreeCfg { fail: ctx.chance(1, 4), ..T },
            max_ops: 5,
            sessions: 6,
            finish_faults: true,
            fmt_w: 2,
        },
    )
}
fn c06(ctx: &Ctx) -> R {
    engine::run(
        ctx,
        Cfg {
            kinds: &[DK::UserIo, DK::IoAnsi, DK::IoPlain],
            allow: Allow { transient: true, fatal: true, panic: ctx.chance(1, 8), flush: false },
            tree: T,
            max_ops: 16,
            sessions: 1,
            finish_faults: false,
            fmt_w: 0,
        },
    )
}
fn c07(ctx: &Ctx) -> R {
    if ctx.chance(1, 8) {
        return p_diff::c07_late(ctx);
    }
    engine::run(
        ctx,
        Cfg {
            kinds: &[DK::IoAnsi, DK::UserIo, DK::IoPlain, DK::Ansi, DK::Html, DK::Plain, DK::UserFmt],
            allow: Allow { transient: true, fatal: true, panic: false, flush: false },
            tree: TreeCfg { fail: ctx.chance(1, 2), ..T },
            max_ops: 12,
            sessions: 1,
            finish_faults: false,
            fmt_w: 7,
        },
    )
}
fn c09(ctx: &Ctx) -> R {
    // Values that carry on after a failing part, or failing sinks: a value
    // that hides a sink's failure cannot be judged from outside.
    let sink = ctx.chance(1, 2);
    engine::run(
        ctx,
        Cfg {
            kinds: &[DK::IoAnsi, DK::Html, DK::Ansi, DK::IoPlain, DK::Plain],
            allow: Allow { transient: true, fatal: sink, panic: sink, flush: false },
            tree: TreeCfg { fail: true, panic: ctx.chance(1, 2), swallow: !sink, ..T },
            max_ops: 20,
            sessions: 2,
            finish_faults: false,
            fmt_w: 4,
        },
    )
}
fn c18(ctx: &Ctx) -> R {
    let sink = ctx.chance(2, 3);
    engine::run(
        ctx,
        Cfg {
            kinds: &ALL_DK,
            allow: Allow { transient: true, fatal: sink, panic: sink && ctx.chance(1, 2), flush: true },
            tree: TreeCfg { fail: ctx.chance(1, 2), panic: ctx.chance(1, 4), swallow: !sink, ..T },
            max_ops: 16,
            sessions: 2,
            finish_faults: true,
            fmt_w: 4,
        },
    )
}

const R_ENGINE: &str = "one run = one seeded execution: 1-4 clients take turns on one adaptor over a simulated sink whose every call the tape decides; non-trivial = at least one fault fired or at least two operations ran; distinct = different event history (operations, results and every sink call, hashed)";
const R_DIFF: &str = "one run = one seeded program executed several times on the real code under different schedules or faults and compared; non-trivial = at least one fault, preemption or fork fired, or at least two operations ran; distinct = different event history (hashed)";
const R_MODEL: &str = "one run = one seeded history executed on the real code and on the reference model; non-trivial = the history has at least two events; distinct = different event history (hashed)";

pub static PROPS: &[Prop] = &[
    Prop { id: "C01", run: c01, runs: (1800_000, 18000_000), rule: R_ENGINE, real: "stylish::io::Ansi, io::Write, Formatter, macros", stub: "I/O sink, terminal (emulated), clients, values" },
    Prop { id: "C02", run: c02, runs: (2400_000, 24000_000), rule: R_ENGINE, real: "stylish::Ansi, Write, Formatter, macros", stub: "text sink, terminal (emulated), clients, values" },
    Prop { id: "C03", run: c03, runs: (2400_000, 24000_000), rule: R_ENGINE, real: "stylish::Html, askama_escape, Write, Formatter, macros", stub: "text sink, HTML reader (emulated), clients, values" },
    Prop { id: "C04", run: c04, runs: (2400_000, 24000_000), rule: R_ENGINE, real: "stylish::Plain, stylish::io::Plain, Formatter, macros", stub: "sinks, clients, values" },
    Prop { id: "C05", run: c05, runs: (2400_000, 24000_000), rule: R_ENGINE, real: "stylish::{Ansi, Html, io::Ansi}::finish and all writes before it", stub: "sinks, terminal and HTML reader (emulated), values" },
    Prop { id: "C06", run: c06, runs: (3000_000, 30000_000), rule: R_ENGINE, real: "io::Write::write_all (default and overriding), io::Ansi, io::Plain", stub: "sinks, one user-written writer" },
    Prop { id: "C07", run: c07, runs: (2400_000, 24000_000), rule: R_ENGINE, real: "write_fmt of io::Write and Write, ErrorTrap, all five adaptors, macros", stub: "sinks, user-written writers, values" },
    Prop { id: "C08", run: p_diff::c08, runs: (2700_000, 27000_000), rule: R_DIFF, real: "all five adaptors, write_all, write_fmt, macros", stub: "sinks, crash, values" },
    Prop { id: "C09", run: c09, runs: (1800_000, 18000_000), rule: R_ENGINE, real: "all five adaptors, Formatter, macros", stub: "sinks, terminal and HTML reader (emulated), values" },
    Prop { id: "C10", run: p_tree::c10, runs: (4500_000, 45000_000), rule: R_MODEL, real: "Formatter, Restyle impls, attribute parsing and expansion in the macros", stub: "recording writer, values" },
    Prop { id: "C11", run: p_tree::c11, runs: (1800_000, 18000_000), rule: R_MODEL, real: "stylish::String, format, ToStylishString, Formatter, adaptors", stub: "recording writer, values" },
    Prop { id: "C12", run: p_tree::c12, runs: (1800_000, 18000_000), rule: R_DIFF, real: "all five adaptors, stylish::String, Formatter, macros", stub: "sinks, values" },
    Prop { id: "C13", run: p_macro::c13, runs: (9000_000, 90000_000), rule: "one run = one format string of the corpus (every combination of alignment, sign, alternate, zero, width and precision flags with five traits each, and multi-argument strings) with drawn values, adaptor and sink faults, against std's own formatting; non-trivial = a fault fired or the text is not empty; distinct = different event history (hashed)", real: "macros, std_compat, all five adaptors", stub: "sinks, user-written writers, values" },
    Prop { id: "C14", run: p_macro::c14, runs: (9000_000, 90000_000), rule: R_MODEL, real: "format_args!, format!, write!, writeln! expansion, Arguments", stub: "recording writer, logging values and argument expressions" },
    Prop { id: "C15", run: p_diff::c15, runs: (2700_000, 27000_000), rule: R_DIFF, real: "forwarding impls for &mut W, by_ref, trait objects, Formatter's writer impls", stub: "sinks, overriding writers, values" },
    Prop { id: "C16", run: p_diff::c16, runs: (1800_000, 18000_000), rule: R_DIFF, real: "io::Ansi, io::Plain, std BufWriter and LineWriter", stub: "disk (volatile/durable), power loss, values" },
    Prop { id: "C17", run: p_alloc::c17, runs: (3000_000, 30000_000), rule: R_DIFF, real: "all five adaptors, Formatter, macros", stub: "allocator (counting/refusing), fixed-memory sink" },
    Prop { id: "C18", run: c18, runs: (2100_000, 21000_000), rule: R_ENGINE, real: "all five adaptors, write_all, write_fmt, Formatter, macros", stub: "sinks, user-written writers, values" },
    Prop { id: "C19", run: p_diff::c19, runs: (900_000, 9000_000), rule: R_DIFF, real: "all five adaptors and their clones, real OS threads released one at a time", stub: "scheduler, sinks, values" },
    Prop { id: "C20", run: p_tree::c20, runs: (4500_000, 45000_000), rule: R_MODEL, real: "format!/format/to_*_string of the four crates and the adaptors", stub: "values" },
    Prop { id: "C22", run: p_style::c22, runs: (3000_000, 30000_000), rule: "one run = one seeded execution: a server whose user-written stateful writer logs text with style differences, and 1-3 clients that follow it over a simulated network; non-trivial = at least one fault fired or at least two events; distinct = different event history (hashed)", real: "Style::diff_from, StyleDiff, every Restyle impl, Formatter", stub: "network, server and clients (applications using the crate), values" },
];
