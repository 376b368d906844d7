//! Real threads, one running at a time: the tape decides who continues at
//! every yield point (sink calls and operation boundaries).

use crate::ctx::{Ctx, F};
use std::{
    cell::Cell,
    sync::{Condvar, Mutex, MutexGuard},
};

thread_local!(static ME: Cell<usize> = const { Cell::new(usize::MAX) });

struct B {
    cur: usize,
    alive: Vec<bool>,
}
pub struct Baton {
    b: Mutex<B>,
    cv: Condvar,
    /// Switch with probability num/8 at a yield point.
    num: usize,
}

impl Baton {
    pub fn new(n: usize, num: usize, first: usize) -> Baton {
        Baton {
            b: Mutex::new(B { cur: first, alive: vec![true; n] }),
            cv: Condvar::new(),
            num,
        }
    }
    fn lock(&self) -> MutexGuard<'_, B> {
        match self.b.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    fn wait<'a>(&'a self, mut b: MutexGuard<'a, B>, me: usize) {
        while b.cur != me {
            b = match self.cv.wait(b) {
                Ok(g) => g,
                Err(p) => p.into_inner(),
            };
        }
    }
    /// First thing a client thread does.
    pub fn enter(&self, me: usize) {
        ME.with(|m| m.set(me));
        self.wait(self.lock(), me);
    }
    pub fn yield_point(&self, ctx: &Ctx) {
        let me = ME.with(|m| m.get());
        if me == usize::MAX {
            return;
        }
        if !ctx.chance(self.num, 8) {
            return;
        }
        let mut b = self.lock();
        let others: Vec<usize> = (0..b.alive.len()).filter(|&i| b.alive[i] && i != me).collect();
        if others.is_empty() {
            return;
        }
        let to = others[ctx.choose(others.len())];
        ctx.fault(F::Preempt);
        ctx.ev("switch", me as u64, to as u64, || format!("{me} -> {to}"));
        b.cur = to;
        self.cv.notify_all();
        self.wait(b, me);
    }
    /// Last thing a client thread does.
    pub fn leave(&self, ctx: &Ctx) {
        let me = ME.with(|m| m.get());
        let mut b = self.lock();
        b.alive[me] = false;
        let others: Vec<usize> = (0..b.alive.len()).filter(|&i| b.alive[i]).collect();
        if !others.is_empty() {
            let to = others[ctx.choose(others.len())];
            ctx.ev("exit", me as u64, to as u64, || format!("{me} done -> {to}"));
            b.cur = to;
            self.cv.notify_all();
        }
    }
}
