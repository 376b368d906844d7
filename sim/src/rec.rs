//! A recording stylish::Write (and stylish::io::Write): keeps text and styles
//! exactly, and can reject.

use crate::{
    ctx::{BudgetPanic, SimPanic},
    screen::{Cell, MS},
    tree::{DEADLY, POISON},
};
use std::fmt;
use stylish::Style;

#[derive(Default, Clone)]
pub struct Rec {
    pub bytes: Vec<u8>,
    pub styles: Vec<MS>,
    /// Reject text containing POISON.
    pub poison: bool,
    /// Reject whatever would exceed this many bytes; and stay rejecting.
    pub limit: Option<usize>,
    pub rejected: u32,
    pub after_reject: u32,
    pub calls: u32,
    /// Calls and bytes so far, against operations that never end.
    pub work: u64,
}
impl Rec {
    pub fn cells(&self) -> Vec<(u8, MS)> {
        self.bytes.iter().copied().zip(self.styles.iter().copied()).collect()
    }
    fn put(&mut self, b: &[u8], style: Style) {
        self.work += 1 + b.len() as u64;
        if self.work > 1 << 26 {
            std::panic::resume_unwind(Box::new(BudgetPanic));
        }
        let m = MS::of(style);
        self.bytes.extend_from_slice(b);
        self.styles.extend(b.iter().map(|_| m));
    }
}
impl stylish::Write for Rec {
    fn write_str(&mut self, s: &str, style: Style) -> fmt::Result {
        self.calls += 1;
        if self.rejected > 0 && !self.poison {
            self.after_reject += 1;
        }
        if self.poison && s.contains(POISON) || self.limit.is_some_and(|l| self.bytes.len() + s.len() > l) {
            self.rejected += 1;
            if self.limit.is_some() {
                self.limit = Some(0);
            }
            return Err(fmt::Error);
        }
        if self.poison && s.contains(DEADLY) {
            std::panic::resume_unwind(Box::new(SimPanic(9)));
        }
        self.put(s.as_bytes(), style);
        Ok(())
    }
}
/// The same through stylish::io::Write, accepting `1..=chunk` bytes per call.
pub struct RecIo(pub Rec, pub usize);
impl stylish::io::Write for RecIo {
    fn write(&mut self, b: &[u8], style: Style) -> std::io::Result<usize> {
        let n = if self.1 == 0 { b.len() } else { b.len().min(self.1) };
        // Their first byte is quick to look for.
        let odd = self.0.poison && b.contains(&0xE2);
        if odd && std::str::from_utf8(b).is_ok_and(|s| s.contains(POISON)) {
            self.0.rejected += 1;
            return Err(std::io::ErrorKind::InvalidData.into());
        }
        if odd && std::str::from_utf8(b).is_ok_and(|s| s.contains(DEADLY)) {
            std::panic::resume_unwind(Box::new(SimPanic(9)));
        }
        self.0.put(&b[..n], style);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub fn seg_cells(segs: &[(String, MS)]) -> Vec<(u8, MS)> {
    segs.iter().flat_map(|(t, m)| t.bytes().map(|b| (b, *m))).collect()
}

pub fn show2(v: &[(u8, MS)]) -> String {
    let c: Vec<Cell> = v.iter().map(|&(byte, m)| Cell { byte, vis: m.vis() }).collect();
    crate::screen::show(&c)
}
