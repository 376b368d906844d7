//! Single inputs that every check of their property tries besides its sampled
//! runs, because they sit at a limit that sampling would meet too often or
//! never. A committed entry "known: property=<id> <name> ..." in
//! KNOWN_FINDINGS.txt turns what exactly that input does into a KNOWN-FINDING.

use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Case {
    pub property: &'static str,
    pub name: &'static str,
    run: fn() -> Result<(), String>,
}

impl Case {
    pub fn run(&self) -> Result<(), String> {
        match catch_unwind(AssertUnwindSafe(|| (self.run)())) {
            Ok(r) => r,
            Err(_) => {
                let m = crate::dut::LAST_PANIC.with(|l| l.borrow().clone());
                // Not where, which is the toolchain's business.
                Err(format!("panicked: {}", m.rsplit_once(" at ").map_or(&m[..], |(m, _)| m)))
            }
        }
    }
}

/// Renders `args` to a sink that accepts everything and expects `width`
/// characters.
fn rendered(args: stylish::Arguments<'_>, width: usize) -> Result<(), String> {
    let mut w = stylish::Plain::new(String::new());
    w.write_fmt(args).map_err(|_| "failed although nothing did".to_string())?;
    match w.into_inner().chars().count() {
        n if n == width => Ok(()),
        n => Err(format!("{n} characters instead of {width}")),
    }
}

pub static CASES: &[Case] = &[
    Case { property: "C18", name: "width-65535", run: || rendered(stylish::format_args!("{:65535}", 7), 65535) },
    Case { property: "C18", name: "width-65536", run: || rendered(stylish::format_args!("{:65536}", 7), 65536) },
    Case { property: "C18", name: "precision-65535", run: || rendered(stylish::format_args!("{:.65535}", 1.5f64), 65537) },
    Case { property: "C18", name: "precision-65536", run: || rendered(stylish::format_args!("{:.65536}", 1.5f64), 65538) },
    Case { property: "C18", name: "text-precision-65535", run: || rendered(stylish::format_args!("{:.65535}", "abc"), 3) },
];

/// The entry of the known-findings file for this case, if it has one, and it
/// describes this outcome: it quotes the panic message.
pub fn known(c: &Case, msg: &str) -> Option<String> {
    let msg = msg.strip_prefix("panicked: ")?;
    let text = std::fs::read_to_string("KNOWN_FINDINGS.txt").ok()?;
    text.lines().find_map(|l| {
        let rest = l.strip_prefix("known: property=")?.strip_prefix(c.property)?.strip_prefix(' ')?;
        (rest.split_whitespace().next() == Some(c.name) && rest.contains(msg)).then(|| rest.to_string())
    })
}
