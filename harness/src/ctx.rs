//! What a single monitored case sees, and what it reports.
use crate::rng::Rng;
use std::collections::BTreeMap;

#[derive(Debug)]
pub enum Fail {
    /// The oracle saw the property broken.
    Violation(String),
    /// The case could not be set up (not this property's business).
    Skip(&'static str),
}
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! bad {
    ($($a:tt)*) => { return Err($crate::ctx::Fail::Violation(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::ctx::Fail::Violation(format!($($a)*))); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    /// Numbers found in the sources under test (workload only, never part of an oracle).
    pub dict: &'static [u64],
    pub setup: bool,
    pub want_desc: bool,
    pub desc: String,
    pub hash: u64,
    pub nontrivial: bool,
    pub ev: BTreeMap<&'static str, u64>,
    pub aux: &'static str,
}

impl Ctx {
    pub fn count(&mut self, what: &'static str, n: u64) {
        *self.ev.entry(what).or_insert(0) += n;
    }
    pub fn feed(&mut self, x: u64) {
        self.hash = (self.hash.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    pub fn say(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            let s = f();
            if self.desc.len() < 20_000 {
                if !self.desc.is_empty() {
                    self.desc.push_str("; ");
                }
                self.desc.push_str(&s);
            }
        }
    }
    /// Should this case be a large one? A few of each worker's first cases are, and now and
    /// then one later.
    pub fn big(&mut self) -> bool {
        !cfg!(miri) && ((64..96).contains(&self.idx) || self.idx > 4096 && self.rng.chance(1, 50_000))
    }
    /// Run something whose panics and failures are not this property's business.
    pub fn setup<T>(&mut self, f: impl FnOnce(&mut Ctx) -> T) -> T {
        let old = std::mem::replace(&mut self.setup, true);
        let r = f(self);
        self.setup = old;
        r
    }
}

pub fn viol<T>(r: Result<T, String>) -> Result<T, Fail> {
    r.map_err(Fail::Violation)
}
pub fn skip<T, E>(r: Result<T, E>, why: &'static str) -> Result<T, Fail> {
    r.map_err(|_| Fail::Skip(why))
}
