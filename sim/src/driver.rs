//! The parent: splits a batch of runs over child processes, watches them,
//! confirms and minimises a violation, and writes the evidence.
//!
//! Which runs make up a chunk is fixed, and each chunk has a single-threaded
//! process of its own, so neither the number of workers nor their timing can
//! change what a run does.

use crate::{
    cases::{known, CASES},
    ctx::FNAMES,
    props::Prop,
    runner::{join, prop, quiet, split, Args},
};
use std::{
    collections::{BTreeMap, HashSet},
    fs,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

const CHUNKS: u64 = 64;
const MAX_CHUNK: u64 = 2000;
/// A run that gets no further in this much CPU time hangs.
const HANG_CPU: f64 = 40.0;
/// ... or in this much time without using the CPU.
const HANG_WALL: f64 = 240.0;

enum End {
    Done,
    Died(String),
    Hung,
}

fn cpu_of(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

/// Runs this program with `args`, its output going to `out`. `state` is the
/// file that holds the number of the run it is at.
fn child(args: &[String], out: &Path, state: Option<&Path>) -> End {
    let exe = std::env::current_exe().expect("current_exe");
    let file = fs::File::create(out).expect("output file");
    let mut c = Command::new(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(file)
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a child process");
    let pid = c.id();
    let mut at = String::new();
    let (mut cpu0, mut t0) = (0.0, Instant::now());
    let mut nap = 1;
    let mut last_look = Instant::now();
    loop {
        match c.try_wait().expect("wait") {
            Some(s) if s.success() => return End::Done,
            Some(s) => return End::Died(s.to_string()),
            None => {}
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
        if last_look.elapsed() < Duration::from_millis(500) {
            continue;
        }
        last_look = Instant::now();
        let now = state.and_then(|f| fs::read_to_string(f).ok()).unwrap_or_default();
        let cpu = cpu_of(pid).unwrap_or(0.0);
        if now != at {
            at = now;
            cpu0 = cpu;
            t0 = Instant::now();
        } else if cpu - cpu0 > HANG_CPU || t0.elapsed().as_secs_f64() > HANG_WALL {
            let _ = c.kill();
            let _ = c.wait();
            return End::Hung;
        }
    }
}

fn unline(s: &str) -> String {
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => r.push('\n'),
                Some('r') => r.push('\r'),
                Some(c) => r.push(c),
                None => {}
            }
        } else {
            r.push(c)
        }
    }
    r
}

#[derive(Default, Clone)]
struct Report {
    violation: Option<(u64, String)>,
    message: String,
    tape: Vec<u32>,
    events: Vec<String>,
    hash: String,
    steps: u64,
    runs: (u64, u64, u64),
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    complete: bool,
}

fn parse(path: &Path) -> Report {
    let mut r = Report::default();
    for l in String::from_utf8_lossy(&fs::read(path).unwrap_or_default()).lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        let mut w = v.split(' ');
        match k {
            "violation" => {
                let i = w.next().and_then(|i| i.parse().ok()).unwrap_or(0);
                r.violation = Some((i, w.next().unwrap_or("").to_string()));
                r.complete = true;
            }
            "message" => r.message = unline(v),
            "tape" => r.tape = split(v),
            "event" => r.events.push(unline(v)),
            "hash" => r.hash = v.to_string(),
            "steps" => r.steps = v.parse().unwrap_or(0),
            "runs" => {
                let n = split(v);
                if n.len() == 3 {
                    r.runs = (n[0] as u64, n[1] as u64, n[2] as u64);
                }
            }
            "fault" | "probe" => {
                let n = w.next().unwrap_or("").to_string();
                let c = w.next().and_then(|c| c.parse().ok()).unwrap_or(0);
                let m = if k == "fault" { &mut r.faults } else { &mut r.probes };
                *m.entry(n).or_insert(0) += c;
            }
            "end" | "clean" => r.complete = true,
            _ => {}
        }
    }
    r
}

struct Job<'a> {
    p: &'static Prop,
    seed: u64,
    tmp: &'a Path,
}

/// How a run is repeated.
#[derive(Clone)]
enum How {
    Tape(Vec<u32>),
    /// Generated runs a..=i in one process.
    Runs(u64, u64),
}

impl Job<'_> {
    fn file(&self, n: &str) -> PathBuf {
        self.tmp.join(n)
    }
    fn chunk(&self, start: u64, count: u64, tag: &str) -> (End, Report, u64) {
        let (out, state, sets) = (self.file(&format!("out.{tag}")), self.file(&format!("at.{tag}")), self.file(&format!("sets.{tag}")));
        let args: Vec<String> = ["chunk", "--property", self.p.id, "--seed", &self.seed.to_string(), "--start", &start.to_string(), "--count", &count.to_string(), "--state", &state.to_string_lossy(), "--sets", &sets.to_string_lossy()]
            .iter()
            .map(|s| s.to_string())
            .collect();
        let e = child(&args, &out, Some(&state));
        let at = fs::read_to_string(&state).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(start);
        (e, parse(&out), at)
    }
    /// The violation (class, message) that a repetition in a new process
    /// shows, if any, and its report.
    fn exec(&self, how: &How, forensic: bool) -> (Option<(String, String)>, Report) {
        let out = self.file("out.exec");
        let mut args: Vec<String> = ["exec", "--property", self.p.id, "--seed", &self.seed.to_string()].iter().map(|s| s.to_string()).collect();
        match how {
            How::Tape(t) => {
                let f = self.file("tape");
                fs::write(&f, join(t)).expect("tape file");
                args.extend(["--tape".into(), f.to_string_lossy().into_owned()]);
            }
            How::Runs(a, i) => args.extend(["--start".into(), a.to_string(), "--index".into(), i.to_string()]),
        }
        let ff = self.file("forensic");
        let _ = fs::remove_file(&ff);
        if forensic {
            args.extend(["--forensic".into(), ff.to_string_lossy().into_owned()]);
        }
        let e = child(&args, &out, None);
        let mut r = parse(&out);
        let v = match e {
            End::Done => r.violation.as_ref().map(|v| (v.1.clone(), r.message.clone())),
            End::Died(s) => Some(("crash".into(), format!("the process died: {s}"))),
            End::Hung => Some(("hang".into(), "the run never ends".into())),
        };
        if forensic {
            r.tape = split(&fs::read_to_string(&ff).unwrap_or_default());
        }
        (v, r)
    }
    fn shows(&self, how: &How, class: &str) -> Option<(String, Report)> {
        let (v, r) = self.exec(how, false);
        v.filter(|v| v.0 == class).map(|v| (v.1, r))
    }
    fn minimise(&self, tape: &[u32], class: &str) -> Vec<u32> {
        if class == "hang" {
            return tape.to_vec();
        }
        if class == "crash" {
            // One process per attempt.
            let mut best = tape.to_vec();
            let mut left = 150;
            let mut w = best.len() / 2;
            while w > 0 && left > 0 {
                let mut at = best.len();
                while at > 0 && left > 0 {
                    at = at.saturating_sub(w);
                    let mut t = best.clone();
                    t.drain(at.min(best.len())..(at + w).min(best.len()));
                    left -= 1;
                    if t.len() < best.len() && self.shows(&How::Tape(t.clone()), class).is_some() {
                        best = t;
                    }
                }
                w /= 2;
            }
            return best;
        }
        let f = self.file("tape.min");
        fs::write(&f, join(tape)).expect("tape file");
        let out = self.file("out.min");
        let args: Vec<String> = ["minimise", "--property", self.p.id, "--tape", &f.to_string_lossy(), "--class", class].iter().map(|s| s.to_string()).collect();
        match child(&args, &out, None) {
            End::Done => {
                let r = parse(&out);
                if r.tape.is_empty() {
                    tape.to_vec()
                } else {
                    r.tape
                }
            }
            _ => tape.to_vec(),
        }
    }

    /// Confirms the incident in a new process and finds its shortest form.
    fn confirm(&self, inc: &Incident) -> Option<(How, String, String, Report)> {
        let first = How::Runs(inc.index, inc.index);
        let (v, r) = self.exec(&first, true);
        if let Some((class, msg)) = v {
            let tape = r.tape.clone();
            let direct = How::Tape(tape.clone());
            if let Some((m, rr)) = self.shows(&direct, &class) {
                let min = self.minimise(&tape, &class);
                let how = How::Tape(min);
                return Some(match self.shows(&how, &class) {
                    Some((m, rr)) => (how, class, m, rr),
                    None => (direct, class, m, rr),
                });
            }
            return Some((first, class, msg, r));
        }
        // It needs what earlier runs left behind.
        let mut back = 1;
        loop {
            let a = inc.index.saturating_sub(back).max(inc.start);
            let how = How::Runs(a, inc.index);
            let (v, r) = self.exec(&how, false);
            if let Some((class, msg)) = v {
                return Some((how, class, msg, r));
            }
            if a == inc.start {
                return None;
            }
            back *= 2;
        }
    }
}

#[derive(Clone)]
struct Incident {
    start: u64,
    index: u64,
    class: String,
    msg: String,
}

#[derive(Default)]
struct Total {
    runs: u64,
    steps: u64,
    faulty: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    seen: HashSet<u64>,
    incident: Option<Incident>,
    trouble: Option<String>,
}

fn sets(path: &Path) -> (Vec<u64>, Vec<u64>) {
    let b = fs::read(path).unwrap_or_default();
    let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    if v.is_empty() {
        return Default::default();
    }
    let n = v[0] as usize;
    (v[1..=n].to_vec(), v[n + 1..].to_vec())
}

fn explore(job: &Job, runs: u64, jobs: u64) -> Total {
    let size = runs.div_ceil(CHUNKS).clamp(1, MAX_CHUNK);
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(u64::MAX);
    let total = Mutex::new(Total::default());
    std::thread::scope(|s| {
        for w in 0..jobs {
            let (next, stop, total) = (&next, &stop, &total);
            s.spawn(move || loop {
                let start = next.fetch_add(1, Ordering::SeqCst) * size;
                if start >= runs || start > stop.load(Ordering::SeqCst) {
                    return;
                }
                let count = size.min(runs - start);
                let tag = format!("w{w}");
                let mut tries = 0;
                let (end, r, at) = loop {
                    let x = job.chunk(start, count, &tag);
                    tries += 1;
                    // Ended from outside: not the code's doing.
                    if tries < 3 && matches!(&x.0, End::Died(s) if s.contains("signal: 9")) {
                        continue;
                    }
                    break x;
                };
                let inc = match end {
                    End::Done if r.complete => r.violation.clone().map(|(index, class)| Incident { start, index, class, msg: r.message.clone() }),
                    End::Done => {
                        total.lock().unwrap().trouble = Some(format!("chunk {start} wrote no result"));
                        return;
                    }
                    End::Died(s) => Some(Incident { start, index: at, class: "crash".into(), msg: s }),
                    End::Hung => Some(Incident { start, index: at, class: "hang".into(), msg: String::new() }),
                };
                let (h, seen) = sets(&job.file(&format!("sets.{tag}")));
                let mut t = total.lock().unwrap();
                t.runs += r.runs.0;
                t.steps += r.runs.1;
                t.faulty += r.runs.2;
                for (k, n) in r.faults {
                    *t.faults.entry(k).or_insert(0) += n;
                }
                for (k, n) in r.probes {
                    *t.probes.entry(k).or_insert(0) += n;
                }
                t.hashes.extend(h);
                t.seen.extend(seen);
                if let Some(i) = inc {
                    if t.incident.as_ref().is_none_or(|o| i.index < o.index) {
                        stop.store(i.index.min(stop.load(Ordering::SeqCst)), Ordering::SeqCst);
                        t.incident = Some(i);
                    }
                }
            });
        }
    });
    let mut t = total.into_inner().unwrap();
    t.hashes.sort_unstable();
    t.hashes.dedup();
    t
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 0x20 => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("stylish-sim.{}", std::process::id()));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(&d).expect("scratch directory");
    d
}

pub fn check(a: &[String]) -> i32 {
    let a = Args::new(a);
    let p = prop(a.need("property"));
    let tier = a.get("tier").unwrap_or("quick").to_string();
    let seed = a.num("seed", 1);
    let cores = std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4);
    let jobs = a.num("jobs", cores.min(8));
    let runs = a.num("runs", if tier == "thorough" { p.runs.1 } else { p.runs.0 });
    let t0 = Instant::now();
    println!("property={} tier={tier} seed={seed} runs={runs}", p.id);
    let tmp = scratch();
    let job = Job { p, seed, tmp: &tmp };
    let t = explore(&job, runs, jobs);
    let explore_s = t0.elapsed().as_secs_f64();
    let mut code = 0;
    if let Some(m) = &t.trouble {
        eprintln!("error: {m}");
        code = 2;
    }
    // The first runs again in another process: same histories?
    let n = runs.div_ceil(CHUNKS).clamp(1, MAX_CHUNK);
    let mut repeatable = None;
    if t.incident.is_none() && code == 0 {
        let x = job.chunk(0, n, "again");
        let (ha, _) = sets(&job.file("sets.again"));
        let y = job.chunk(0, n, "again");
        let (hb, _) = sets(&job.file("sets.again"));
        repeatable = Some(ha == hb && x.1.runs == y.1.runs && ha.iter().all(|h| t.hashes.binary_search(h).is_ok()));
    }
    let mut violations = 0;
    if let Some(inc) = &t.incident {
        match job.confirm(inc) {
            Some((how, class, msg, r)) => {
                violations = 1;
                let dir = PathBuf::from(a.get("replay").unwrap_or("replay"));
                fs::create_dir_all(&dir).expect("replay directory");
                let f = dir.join(format!("{}-{seed}-{}.txt", p.id, inc.index));
                let mut s = format!("property: {}\nseed: {seed}\nindex: {}\n", p.id, inc.index);
                match &how {
                    How::Tape(t) => s += &format!("tape: {}\n", join(t)),
                    How::Runs(a, i) => s += &format!("runs: {a} {i}\n"),
                }
                s += &format!("class: {class}\nmessage: {}\nhash: {}\n", msg.replace('\\', "\\\\").replace('\n', "\\n"), r.hash);
                s += "--- what happens (schedule, operations, sink answers and faults)\n";
                let n = r.events.len();
                for (i, e) in r.events.iter().enumerate() {
                    if n > 4000 && i == 2000 {
                        s += &format!("... {} events left out here; repeating the file shows them\n", n - 4000);
                    }
                    if n <= 4000 || i < 2000 || i >= n - 2000 {
                        s += e;
                        s.push('\n');
                    }
                }
                fs::write(&f, &s).expect("replay file");
                let f = fs::canonicalize(&f).unwrap_or(f);
                println!("violated: {class}: {msg}");
                for e in r.events.iter().take(60) {
                    println!("  {e}");
                }
                println!("VIOLATION property={} replay={}", p.id, f.display());
                code = 1;
            }
            None => {
                eprintln!("error: run {} showed {}: {} but repeating it does not", inc.index, inc.class, inc.msg);
                code = 2;
            }
        }
    }
    // The fixed cases of this property.
    let mut findings = Vec::new();
    if code != 2 {
        quiet();
        for c in CASES.iter().filter(|c| c.property == p.id) {
            let Err(msg) = c.run() else { continue };
            if let Some(k) = known(c, &msg) {
                println!("KNOWN-FINDING: property={} {k}", p.id);
                findings.push(k);
                continue;
            }
            violations += 1;
            let dir = PathBuf::from(a.get("replay").unwrap_or("replay"));
            fs::create_dir_all(&dir).expect("replay directory");
            let f = dir.join(format!("{}-case-{}.txt", p.id, c.name));
            fs::write(&f, format!("property: {}\ncase: {}\nmessage: {}\n", p.id, c.name, msg.replace('\n', "\\n"))).expect("replay file");
            let f = fs::canonicalize(&f).unwrap_or(f);
            println!("violated: case {}: {msg}", c.name);
            println!("VIOLATION property={} replay={}", p.id, f.display());
            code = 1;
        }
        let _ = std::panic::take_hook();
    }
    // Evidence.
    let mut samples = Vec::new();
    if code != 2 {
        for i in [0, runs / 2, runs - 1] {
            let (_, r) = job.exec(&How::Runs(i, i), false);
            let mut ev: Vec<String> = r.events.iter().take(40).cloned().collect();
            if r.events.len() > 40 {
                ev.push(format!("... {} more events", r.events.len() - 40));
            }
            samples.push(format!("{{\"run\": {i}, \"history_hash\": {}, \"steps\": {}, \"events\": [{}]}}", js(&r.hash), r.steps, ev.iter().map(|e| js(e)).collect::<Vec<_>>().join(", ")));
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut faults = t.faults.clone();
    for n in FNAMES {
        faults.entry(n.to_string()).or_insert(0);
    }
    faults.retain(|_, c| *c > 0);
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"runs_with_faults\": {},\n  \"simulated_steps\": {},\n  \"simulated_time\": \"the code has no clock; progress is counted in simulated steps (sink calls)\",\n  \"faults_injected\": {},\n  \"probes_hit\": {},\n  \"distinct_situations\": {},\n  \"distinct_situations_rule\": {},\n  \"runs_per_hour\": {},\n  \"processes\": {},\n  \"same_histories_in_another_process\": {},\n  \"fixed_cases\": {},\n  \"known_findings\": [{}],\n  \"real_code\": {},\n  \"simulated\": {},\n  \"samples\": [\n   {}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {violations}\n}}\n",
        js(p.id),
        js(&tier),
        t.runs,
        t.hashes.len(),
        js(p.rule),
        t.faulty,
        t.steps,
        jmap(&faults),
        jmap(&t.probes),
        t.seen.len(),
        js("different pairs of (state of the emulated reader and adaptor before a sink call, what the sink answered) or, for properties without sinks, different pairs of (shape of the case, outcome)"),
        (t.runs as f64 / explore_s.max(0.001) * 3600.0) as u64,
        t.runs.div_ceil(n),
        match repeatable {
            Some(b) => b.to_string(),
            None => "null".into(),
        },
        CASES.iter().filter(|c| c.property == p.id).count(),
        findings.iter().map(|k| js(k)).collect::<Vec<_>>().join(", "),
        js(p.real),
        js(p.stub),
        samples.join(",\n   "),
        ["sampled, not exhaustive: a clean batch is evidence, not proof", "sinks, values and writers given to the library keep their traits' contracts"].map(js).join(", "),
        wall,
    );
    if let Some(dir) = a.get("evidence") {
        fs::create_dir_all(dir).expect("evidence directory");
        fs::write(Path::new(dir).join(format!("{}.json", p.id)), ev).expect("evidence file");
    }
    println!(
        "runs={} distinct={} situations={} steps={} faults={} wall={wall:.1}s repeatable={repeatable:?} violations={violations}",
        t.runs,
        t.hashes.len(),
        t.seen.len(),
        t.steps,
        faults.values().sum::<u64>(),
    );
    let _ = fs::remove_dir_all(&tmp);
    code
}

/// Repeats a replay file: exits 1 if the violation shows again, exactly.
pub fn replay_cmd(a: &[String]) -> i32 {
    let Some(file) = a.first() else {
        eprintln!("usage: sim replay FILE");
        return 2;
    };
    let text = fs::read_to_string(file).expect("replay file");
    let mut m = BTreeMap::new();
    for l in text.lines().take_while(|l| !l.starts_with("---")) {
        if let Some((k, v)) = l.split_once(": ") {
            m.insert(k, v);
        }
    }
    let get = |k: &str| m.get(k).copied().unwrap_or("");
    let p = prop(get("property"));
    if let Some(name) = m.get("case") {
        quiet();
        let c = CASES.iter().find(|c| c.property == p.id && c.name == *name).expect("no such case");
        return match c.run() {
            Ok(()) => {
                println!("clean: the violation does not show");
                0
            }
            Err(msg) => {
                println!("violated: case {name}: {msg}");
                println!("{}", if msg == get("message") { "identical to the recorded history" } else { "NOT identical to the recorded history" });
                println!("VIOLATION property={} replay={file}", p.id);
                1
            }
        };
    }
    let tmp = scratch();
    let job = Job { p, seed: get("seed").parse().unwrap_or(1), tmp: &tmp };
    let how = match m.get("runs") {
        Some(r) => {
            let r = split(r);
            How::Runs(r[0] as u64, r[1] as u64)
        }
        None => How::Tape(split(get("tape"))),
    };
    let (v, r) = job.exec(&how, false);
    let _ = fs::remove_dir_all(&tmp);
    for e in &r.events {
        println!("{e}");
    }
    match v {
        Some((class, msg)) => {
            let same = class == get("class") && r.hash == get("hash");
            println!("violated: {class}: {msg}");
            println!("{}", if same { "identical to the recorded history" } else { "NOT identical to the recorded history" });
            println!("VIOLATION property={} replay={file}", p.id);
            1
        }
        None => {
            println!("clean: the violation does not show");
            0
        }
    }
}
