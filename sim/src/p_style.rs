//! C22: a document rendered on a server and followed by clients over a faulty
//! network. The server is a user-written stateful `stylish::Write` of the kind
//! `Style::diff_from` is documented for: it notes text together with the
//! difference to the style before. Clients hold a style of their own and bring
//! it up to date with the differences they receive: one at a time, several
//! composed into one restyle, or the direct difference between two far
//! versions. Messages are lost, duplicated, delayed and reordered, links are
//! cut, clients restart from their last snapshot. At every version a client
//! must have exactly the server's style and text, and once the faults stop it
//! catches up within a bounded number of rounds.

use crate::{
    ctx::{Ctx, F, R},
    dut::guard,
    rec::{seg_cells, show2},
    screen::MS,
    tree::{any_style, gen_re, gen_text, gen_tree, Env, Palette, TreeCfg, TV},
};
use stylish::{Restyle, Style, StyleDiff};

#[derive(Clone)]
struct Entry {
    text: String,
    diff: StyleDiff,
}

/// The server's writer.
struct Log {
    cur: Style,
    /// The style at each version; version k has k entries.
    styles: Vec<Style>,
    entries: Vec<Entry>,
}
impl stylish::Write for Log {
    fn write_str(&mut self, s: &str, style: Style) -> std::fmt::Result {
        self.entries.push(Entry { text: s.to_string(), diff: style.diff_from(self.cur) });
        self.styles.push(style);
        self.cur = style;
        Ok(())
    }
}

#[derive(Clone)]
enum Msg {
    /// Entries from..from+n with their own differences.
    Entries { from: usize, entries: Vec<Entry> },
    /// The text since `from`, and one difference from there to `to`.
    Jump { from: usize, to: usize, text: Vec<(String, usize)>, diff: StyleDiff },
}

#[derive(Clone, Default)]
struct Doc {
    version: usize,
    style: Style,
    /// Length of the text (bytes), and the styles it was shown in.
    cells: Vec<(u8, MS)>,
}

struct Client {
    now: Doc,
    saved: Doc,
    link: Vec<Msg>,
    /// What the server knows the client has.
    acked: usize,
    cut: bool,
}

fn mentions(d: &StyleDiff) -> (bool, bool, bool) {
    (d.foreground.is_some(), d.background.is_some(), d.intensity.is_some())
}

/// A difference must mention exactly what differs, with the new value.
fn minimal(d: &StyleDiff, from: MS, to: MS) -> R {
    ensure!(
        mentions(d) == (from.fg != to.fg, from.bg != to.bg, from.it != to.it),
        "wrong-difference",
        "the difference from {from:?} to {to:?} is {d:?}"
    );
    let r = to.real();
    ensure!(
        d.foreground.is_none_or(|f| f == r.foreground) && d.background.is_none_or(|b| b == r.background) && d.intensity.is_none_or(|i| i == r.intensity),
        "wrong-difference",
        "the difference from {from:?} to {to:?} is {d:?}"
    );
    Ok(())
}

/// One of the ways to apply one difference.
fn apply(s: Style, d: &StyleDiff, way: usize) -> Style {
    match way {
        0 => s.with(*d),
        1 => s.with(d),
        2 => d.apply(s),
        3 => s.with(Some(*d)),
        4 => s.with(&[*d][..]),
        5 => s.with(Box::new(*d)),
        6 => s.with((*d, ())),
        7 => s.with(((), *d)),
        8 => s.with(d as &dyn Restyle),
        9 => s.with((d.foreground.map(stylish::Foreground), d.background.map(stylish::Background), d.intensity)),
        _ => s.with(None::<StyleDiff>).with((d.intensity, (d.background.map(stylish::Background), d.foreground.map(stylish::Foreground)))),
    }
}

/// Several differences composed into one restyle.
fn apply_all(s: Style, d: &[StyleDiff], way: usize) -> Style {
    match (way, d) {
        (0, _) => s.with(d),
        (1, _) => d.iter().fold(s, |s, d| s.with(d)),
        (2, _) => {
            let v: Vec<&dyn Restyle> = d.iter().map(|d| d as &dyn Restyle).collect();
            s.with(&v[..])
        }
        (3, [a, b]) => s.with((*a, b)),
        (3, [a, b, c]) => s.with((a, *b, c)),
        (3, [a, rest @ ..]) => s.with((a, rest)),
        (4, [a, b, rest @ ..]) => s.with(((a, b), rest)),
        (5, [rest @ .., a, b]) => s.with((rest, a, Some(b))),
        (6, [rest @ .., a]) => s.with((Box::new(rest) as Box<dyn Restyle + '_>, (), *a)),
        _ => s.with(Some(d)),
    }
}

struct Sim<'a> {
    ctx: &'a Ctx,
    log: Log,
    /// The model: what every version should look like.
    model: Vec<MS>,
    cells: Vec<(u8, MS)>,
    /// Length of the text at each version.
    len: Vec<usize>,
    clients: Vec<Client>,
}

impl Sim<'_> {
    /// The server writes something.
    fn produce(&mut self, pal: &Palette) -> R {
        let ctx = self.ctx;
        let before = self.log.entries.len();
        if ctx.chance(1, 4) {
            let tree = gen_tree(ctx, TreeCfg::default(), pal);
            let mut m = Vec::new();
            let _ = tree.model(MS::default(), false, &mut m);
            ctx.ev("write", tree.code(), 0, || format!("server: write!({tree:?})"));
            let env = Env::NONE;
            let r = guard(|| stylish::Write::write_fmt(&mut self.log, stylish::format_args!("{:s}", TV(&tree, &env))))?;
            ensure!(r == Some(Ok(())), "wrong-result", "write! to the log returned {r:?}");
            self.cells.extend(seg_cells(&m));
        } else {
            // Restyles the style it is in, or one drawn from the palette.
            let (from, base) = if ctx.chance(1, 2) { (*self.model.last().unwrap(), self.log.cur) } else { let s = pal.style(ctx); (s, s.real()) };
            let re = gen_re(ctx, 2);
            let text = gen_text(ctx);
            let want = re.model(from);
            ctx.ev("write", text.len() as u64, want.fg as u64 * 64 + want.bg as u64 * 3 + want.it as u64, || format!("server: write_str({text:?}, {from:?} with {re:?})"));
            let Some(style) = guard(|| base.with(&re))? else { return Ok(()) };
            ensure!(MS::of(style) == want, "wrong-restyle", "{from:?} with {re:?} is {:?} instead of {want:?}", MS::of(style));
            let r = guard(|| stylish::Write::write_str(&mut self.log, &text, style))?;
            ensure!(r == Some(Ok(())), "wrong-result", "write_str to the log returned {r:?}");
            self.cells.extend(text.bytes().map(|b| (b, want)));
        }
        // What was noted is what should have been.
        for k in before..self.log.entries.len() {
            let (e, to) = (&self.log.entries[k], MS::of(self.log.styles[k + 1]));
            let at = self.len[k];
            self.len.push(at + e.text.len());
            ensure!(
                self.cells.len() >= at + e.text.len() && self.cells[at..].iter().zip(e.text.bytes()).all(|(c, b)| *c == (b, to)),
                "wrong-style",
                "entry {k} {:?} is in {to:?}, expected {}", e.text, show2(&self.cells[at..])
            );
            minimal(&e.diff, self.model[k], to)?;
            self.model.push(to);
        }
        ensure!(*self.len.last().unwrap() == self.cells.len(), "lost-output", "the log has {} of {} bytes", self.len.last().unwrap(), self.cells.len());
        Ok(())
    }

    /// The server sends client `i` what it believes is missing.
    fn send(&mut self, i: usize, all: bool) -> R {
        let ctx = self.ctx;
        let top = self.log.entries.len();
        let from = self.clients[i].acked;
        let jump = ctx.chance(1, 2);
        let to = if !all && ctx.chance(1, 3) { from + ctx.choose(top - from + 1) } else { top };
        let m = if jump {
            let Some(diff) = guard(|| self.log.styles[to].diff_from(self.log.styles[from]))? else { return Ok(()) };
            minimal(&diff, self.model[from], self.model[to])?;
            Msg::Jump { from, to, text: (from..to).map(|k| (self.log.entries[k].text.clone(), k)).collect(), diff }
        } else {
            Msg::Entries { from, entries: self.log.entries[from..to].to_vec() }
        };
        ctx.ev("send", i as u64, (from * 1000 + to) as u64 * 2 + jump as u64, || format!("server -> client {i}: {} {from}..{to}", if jump { "difference" } else { "entries" }));
        self.clients[i].link.push(m);
        Ok(())
    }

    /// Client `i` takes a message off its link.
    fn receive(&mut self, i: usize, at: usize) -> R {
        let ctx = self.ctx;
        let m = self.clients[i].link.remove(at);
        let (from, to) = match &m {
            Msg::Entries { from, entries } => (*from, from + entries.len()),
            Msg::Jump { from, to, .. } => (*from, *to),
        };
        let doc = &mut self.clients[i].now;
        ctx.cover((from.min(9) * 100 + to.min(9) * 10 + doc.version.min(9)) as u64 * 2 + matches!(m, Msg::Jump { .. }) as u64);
        // Stale, or from a future it cannot connect to.
        let usable = match &m {
            Msg::Entries { .. } => from <= doc.version && to > doc.version,
            Msg::Jump { .. } => from == doc.version && to > from,
        };
        let way = ctx.choose(11);
        ctx.ev("receive", i as u64, (from * 1000 + to) as u64 * 32 + way as u64 * 2 + usable as u64, || {
            format!("client {i} at {}: {from}..{to} {}", doc.version, if usable { "applied" } else { "ignored" })
        });
        if usable {
            let start = doc.style;
            match m {
                Msg::Entries { from, entries } => {
                    let news = &entries[doc.version - from..];
                    if way < 7 && news.len() > 1 {
                        // All at once, then the text entry by entry.
                        let diffs: Vec<StyleDiff> = news.iter().map(|e| e.diff).collect();
                        let Some(all) = guard(|| apply_all(start, &diffs, way))? else { return Ok(()) };
                        let want = self.model[to];
                        ensure!(MS::of(all) == want, "wrong-style", "client {i}: {:?} with {diffs:?} (way {way}) is {:?} instead of {want:?}", MS::of(start), MS::of(all));
                        ctx.probe("differences_composed");
                    }
                    for e in news {
                        let Some(s) = guard(|| apply(doc.style, &e.diff, way))? else { return Ok(()) };
                        doc.style = s;
                        doc.cells.extend(e.text.bytes().map(|b| (b, MS::of(s))));
                        doc.version += 1;
                        let want = self.model[doc.version];
                        ensure!(MS::of(s) == want, "wrong-style", "client {i} is in {:?} at version {} instead of {want:?}", MS::of(s), doc.version);
                    }
                }
                Msg::Jump { text, diff, .. } => {
                    let Some(s) = guard(|| apply(start, &diff, way))? else { return Ok(()) };
                    let want = self.model[to];
                    ensure!(MS::of(s) == want, "wrong-style", "client {i}: {:?} with {diff:?} (way {way}) is {:?} instead of {want:?}", MS::of(start), MS::of(s));
                    // The difference leaves alone what it does not mention,
                    // on any other style.
                    let other = any_style(ctx);
                    let Some(o) = guard(|| apply(other.real(), &diff, way))? else { return Ok(()) };
                    let mut w = other;
                    let (f, b, n) = mentions(&diff);
                    if f {
                        w.fg = want.fg
                    }
                    if b {
                        w.bg = want.bg
                    }
                    if n {
                        w.it = want.it
                    }
                    ensure!(MS::of(o) == w, "wrong-restyle", "{other:?} with {diff:?} (way {way}) is {:?} instead of {w:?}", MS::of(o));
                    doc.style = s;
                    doc.version = to;
                    for (t, k) in text {
                        let m = self.model[k + 1];
                        doc.cells.extend(t.bytes().map(|b| (b, m)));
                    }
                    ctx.probe("direct_difference");
                }
            }
            let have = doc.cells.len();
            ensure!(have == self.len[doc.version] && doc.cells[..] == self.cells[..have], "wrong-output", "client {i} shows {} at version {}", show2(&doc.cells), doc.version);
        }
        // The acknowledgement shares the link's fate.
        if !self.clients[i].cut {
            self.clients[i].acked = self.clients[i].now.version;
        }
        Ok(())
    }

    fn step(&mut self, pal: &Palette) -> R {
        let ctx = self.ctx;
        ctx.step();
        let i = ctx.choose(self.clients.len());
        match ctx.choose(12) {
            0..=2 => self.produce(pal)?,
            3 | 4 => self.send(i, false)?,
            5..=7 => {
                let n = self.clients[i].link.len();
                if n > 0 && !self.clients[i].cut {
                    let at = if ctx.chance(1, 3) { ctx.choose(n) } else { 0 };
                    if at > 0 {
                        ctx.fault(F::MsgLate);
                    }
                    self.receive(i, at)?;
                }
            }
            8 => {
                if !self.clients[i].link.is_empty() {
                    self.clients[i].link.remove(0);
                    ctx.fault(F::MsgLost);
                    ctx.ev("lose", i as u64, 0, || format!("a message to client {i} is lost"));
                }
            }
            9 => {
                if let Some(m) = self.clients[i].link.first().cloned() {
                    self.clients[i].link.push(m);
                    ctx.fault(F::MsgTwice);
                    ctx.ev("duplicate", i as u64, 0, || format!("a message to client {i} is duplicated"));
                }
            }
            10 => {
                let c = &mut self.clients[i];
                if ctx.chance(1, 2) {
                    c.saved = c.now.clone();
                    ctx.ev("save", i as u64, c.saved.version as u64, || format!("client {i} saves version {}", c.saved.version));
                } else {
                    c.now = c.saved.clone();
                    if !c.cut {
                        // The server learns where it is now.
                        c.acked = c.now.version;
                    }
                    ctx.fault(F::Restart);
                    ctx.ev("restart", i as u64, c.now.version as u64, || format!("client {i} restarts at version {}", c.now.version));
                }
            }
            _ => {
                let c = &mut self.clients[i];
                c.cut = !c.cut;
                if c.cut {
                    ctx.fault(F::Partition);
                }
                ctx.ev("link", i as u64, c.cut as u64, || format!("link to client {i} {}", if c.cut { "cut" } else { "healed" }));
            }
        }
        Ok(())
    }
}

pub fn c22(ctx: &Ctx) -> R {
    let pal = Palette::gen(ctx);
    let mut sim = Sim {
        ctx,
        log: Log { cur: Style::default(), styles: vec![Style::default()], entries: Vec::new() },
        model: vec![MS::default()],
        cells: Vec::new(),
        len: vec![0],
        clients: (0..1 + ctx.choose(3))
            .map(|_| Client { now: Doc::default(), saved: Doc::default(), link: Vec::new(), acked: 0, cut: false })
            .collect(),
    };
    let steps = ctx.small(2, 40);
    for _ in 0..steps {
        ctx.span(|| sim.step(&pal))?;
    }
    // Faults stop: everyone catches up.
    for i in 0..sim.clients.len() {
        sim.clients[i].cut = false;
        let bound = 2 * sim.clients[i].link.len() + 8;
        let mut rounds = 0;
        while sim.clients[i].now.version < sim.log.entries.len() {
            rounds += 1;
            ensure!(rounds <= bound, "no-convergence", "client {i} is still at version {} of {} after {bound} rounds", sim.clients[i].now.version, sim.log.entries.len());
            while !sim.clients[i].link.is_empty() {
                sim.receive(i, 0)?;
            }
            sim.send(i, true)?;
            sim.receive(i, 0)?;
        }
        let c = &sim.clients[i];
        ensure!(MS::of(c.now.style) == *sim.model.last().unwrap() && c.now.style == sim.log.cur, "wrong-style", "client {i} ends in {:?}, the server in {:?}", MS::of(c.now.style), sim.model.last());
        ensure!(c.now.cells == sim.cells, "wrong-output", "client {i} ends with {}, the server with {}", show2(&c.now.cells), show2(&sim.cells));
    }
    Ok(())
}
