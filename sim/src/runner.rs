//! What runs inside one (child) process: executions of the code under test.

use crate::{
    ctx::{hbytes, mix, BudgetPanic, Ctx, Violation, FNAMES, NF},
    dut::LAST_PANIC,
    props::{Prop, PROPS},
};
use std::{
    collections::{BTreeMap, BTreeSet},
    io::{Seek, Write},
    panic::{catch_unwind, AssertUnwindSafe},
};

pub fn prop(id: &str) -> &'static Prop {
    match PROPS.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

pub fn quiet() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("{m}{at}"));
    }));
}

pub fn seed_of(p: &Prop, seed: u64, i: u64) -> u64 {
    mix(mix(seed, hbytes(p.id.as_bytes())), i)
}

/// One execution.
pub fn run_one(p: &Prop, ctx: &Ctx) -> Option<Violation> {
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(ctx)));
    let mut v = match r {
        Ok(Ok(())) => None,
        Ok(Err(v)) => Some(v),
        Err(e) if e.is::<BudgetPanic>() => Some(Violation {
            class: "no-progress",
            msg: format!("still busy after {} sink calls", ctx.steps()),
        }),
        Err(_) => Some(Violation {
            class: "panic",
            msg: format!("unexpected panic: {}", LAST_PANIC.with(|l| l.borrow().clone())),
        }),
    };
    if v.is_none() {
        v = ctx.st().violation.take();
    }
    v
}

pub struct Args(BTreeMap<String, String>);
impl Args {
    pub fn new(a: &[String]) -> Args {
        let mut m = BTreeMap::new();
        let mut it = a.iter();
        while let Some(k) = it.next() {
            if let Some(k) = k.strip_prefix("--") {
                m.insert(k.to_string(), it.next().cloned().unwrap_or_default());
            }
        }
        Args(m)
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    pub fn need(&self, k: &str) -> &str {
        match self.get(k) {
            Some(v) => v,
            None => {
                eprintln!("missing --{k}");
                std::process::exit(2)
            }
        }
    }
}

fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
pub fn join(t: &[u32]) -> String {
    t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}
pub fn split(s: &str) -> Vec<u32> {
    s.split_whitespace().filter_map(|v| v.parse().ok()).collect()
}

/// Runs start..start+count, one after another, up to the first violation.
pub fn chunk(a: &[String]) -> i32 {
    quiet();
    let a = Args::new(a);
    let p = prop(a.need("property"));
    let (seed, start, count) = (a.num("seed", 1), a.num("start", 0), a.num("count", 1));
    let mut state = a.get("state").map(|f| std::fs::File::create(f).expect("state file"));
    let (mut faults, mut probes) = ([0u64; NF], BTreeMap::<&str, u64>::new());
    let (mut steps, mut runs, mut faulty) = (0u64, 0u64, 0u64);
    // For finding runs that take long.
    let slow = std::env::var_os("SIM_SLOW");
    let mut hashes = BTreeSet::new();
    let mut seen = std::collections::HashSet::new();
    let out = std::io::stdout();
    let mut out = out.lock();
    for i in start..start + count {
        if let Some(f) = &mut state {
            let _ = f.seek(std::io::SeekFrom::Start(0));
            let _ = f.write_all(format!("{i:020}").as_bytes());
        }
        let ctx = Ctx::gen(seed_of(p, seed, i));
        let t0 = slow.as_ref().map(|_| std::time::Instant::now());
        let v = run_one(p, &ctx);
        let mut s = ctx.st();
        if let (Some(f), Some(t)) = (&slow, t0.map(|t| t.elapsed().as_millis()).filter(|&t| t > 500)) {
            if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(f) {
                let _ = writeln!(f, "{} {i} {t} ms {} steps {} events", p.id, s.steps, s.events);
            }
        }
        runs += 1;
        steps += s.steps;
        let mut f = 0;
        for k in 0..NF {
            faults[k] += s.faults[k];
            f += s.faults[k];
        }
        faulty += (f > 0) as u64;
        for (k, n) in &s.probes {
            *probes.entry(k).or_insert(0) += n;
        }
        if f > 0 || s.events > 2 {
            hashes.insert(s.hash);
        }
        seen.extend(std::mem::take(&mut s.seen));
        if let Some(v) = v {
            let _ = writeln!(out, "violation {i} {}", v.class);
            let _ = writeln!(out, "message {}", one_line(&v.msg));
            let _ = writeln!(out, "tape {}", join(&s.rec));
            let _ = writeln!(out, "spans {}", s.spans.iter().map(|(a, b)| format!("{a} {b}")).collect::<Vec<_>>().join(" "));
            break;
        }
    }
    let _ = writeln!(out, "runs {runs} {steps} {faulty}");
    for (n, c) in FNAMES.iter().zip(faults) {
        let _ = writeln!(out, "fault {n} {c}");
    }
    for (n, c) in &probes {
        let _ = writeln!(out, "probe {n} {c}");
    }
    if let Some(f) = a.get("sets") {
        let mut b: Vec<u8> = Vec::with_capacity(8 * (hashes.len() + seen.len() + 2));
        let mut seen: Vec<u64> = seen.into_iter().collect();
        seen.sort();
        b.extend((hashes.len() as u64).to_le_bytes());
        hashes.iter().for_each(|h| b.extend(h.to_le_bytes()));
        seen.iter().for_each(|h| b.extend(h.to_le_bytes()));
        std::fs::write(f, b).expect("sets file");
    }
    let _ = writeln!(out, "end");
    0
}

/// Hash of every run, for the determinism self-test.
pub fn hashes(a: &[String]) -> i32 {
    quiet();
    let a = Args::new(a);
    let p = prop(a.need("property"));
    let (seed, start, count) = (a.num("seed", 1), a.num("start", 0), a.num("count", 1));
    for i in start..start + count {
        let ctx = Ctx::gen(seed_of(p, seed, i));
        let v = run_one(p, &ctx);
        let s = ctx.st();
        println!("{i} {:016x} {} {}", s.hash, s.steps, v.map(|v| v.class).unwrap_or("ok"));
    }
    0
}

/// What a run did, in full.
fn show(i: &str, ctx: &Ctx, v: &Option<Violation>) {
    let s = ctx.st();
    println!("run {i}");
    for l in &s.log {
        println!("event {}", one_line(l));
    }
    println!("hash {:016x}", s.hash);
    println!("steps {}", s.steps);
    println!("tape {}", join(&s.rec));
    println!("spans {}", s.spans.iter().map(|(a, b)| format!("{a} {b}")).collect::<Vec<_>>().join(" "));
    match v {
        Some(v) => {
            println!("violation {i} {}", v.class);
            println!("message {}", one_line(&v.msg));
        }
        None => println!("clean"),
    }
}

/// Runs a tape (--tape), or generated runs --start..=--index of which only the
/// last is shown.
pub fn exec(a: &[String]) -> i32 {
    quiet();
    let a = Args::new(a);
    let p = prop(a.need("property"));
    let forensic = |ctx: &Ctx| {
        if let Some(f) = a.get("forensic") {
            ctx.st().forensic = std::fs::File::create(f).ok();
        }
    };
    if let Some(t) = a.get("tape") {
        let t = split(&std::fs::read_to_string(t).expect("tape file"));
        let ctx = Ctx::replay(t, true);
        forensic(&ctx);
        let v = run_one(p, &ctx);
        show("tape", &ctx, &v);
    } else {
        let (seed, i) = (a.num("seed", 1), a.num("index", 0));
        for k in a.num("start", i)..=i {
            let ctx = Ctx::gen(seed_of(p, seed, k));
            if k == i {
                ctx.st().verbose = true;
                forensic(&ctx);
            }
            let v = run_one(p, &ctx);
            if k == i {
                show(&i.to_string(), &ctx, &v);
            }
        }
    }
    0
}

struct Best {
    tape: Vec<u32>,
    spans: Vec<(usize, usize)>,
}

/// Minimises --tape while the class of the violation stays --class.
pub fn minimise(a: &[String]) -> i32 {
    quiet();
    let a = Args::new(a);
    let p = prop(a.need("property"));
    let class = a.need("class").to_string();
    let mut left = a.num("tries", 4000);
    let t0 = std::time::Instant::now();
    let limit = std::time::Duration::from_secs(a.num("seconds", 30));
    let file = a.need("tape");
    let tape = split(&std::fs::read_to_string(file).expect("tape file"));
    let mut attempt = |t: &[u32]| -> Option<Best> {
        if left == 0 || t0.elapsed() > limit {
            return None;
        }
        left -= 1;
        let ctx = Ctx::replay(t.to_vec(), false);
        let v = run_one(p, &ctx)?;
        if v.class != class {
            return None;
        }
        let mut s = ctx.st();
        let mut tape = std::mem::take(&mut s.rec);
        while tape.last() == Some(&0) {
            tape.pop();
        }
        Some(Best { tape, spans: std::mem::take(&mut s.spans) })
    };
    let weight = |t: &[u32]| (t.len(), t.iter().map(|&v| v as u64).sum::<u64>());
    let Some(mut best) = attempt(&tape) else {
        println!("gone");
        return 0;
    };
    loop {
        let before = weight(&best.tape);
        // Drop whole groups of draws, later and larger ones first.
        let mut spans = best.spans.clone();
        spans.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), std::cmp::Reverse(*a)));
        let mut k = 0;
        while k < spans.len() {
            let (x, y) = spans[k];
            k += 1;
            if x >= best.tape.len() {
                continue;
            }
            let mut t = best.tape.clone();
            t.drain(x..y.min(best.tape.len()));
            if let Some(b) = attempt(&t) {
                if weight(&b.tape) < weight(&best.tape) {
                    best = b;
                    spans = best.spans.clone();
                    spans.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), std::cmp::Reverse(*a)));
                    k = 0;
                }
            }
        }
        // Drop runs of draws.
        for w in [16, 8, 4, 2, 1] {
            let mut at = best.tape.len();
            while at > 0 {
                at = at.saturating_sub(w);
                if at >= best.tape.len() {
                    continue;
                }
                let mut t = best.tape.clone();
                t.drain(at..(at + w).min(best.tape.len()));
                if let Some(b) = attempt(&t) {
                    if weight(&b.tape) < weight(&best.tape) {
                        best = b;
                    }
                }
            }
        }
        // Lower single draws.
        let mut i = 0;
        while i < best.tape.len() {
            let v = best.tape[i];
            for c in [0, 1, v / 2, v.saturating_sub(1)] {
                if c < v {
                    let mut t = best.tape.clone();
                    t[i] = c;
                    if let Some(b) = attempt(&t) {
                        if weight(&b.tape) < weight(&best.tape) {
                            best = b;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if weight(&best.tape) >= before {
            break;
        }
    }
    println!("tape {}", join(&best.tape));
    0
}
