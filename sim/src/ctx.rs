//! The context of one simulated run: choices, counters, the event hash and the optional trace.

use crate::src::Src;
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub struct Violation {
    /// Shrinking keeps the class.
    pub class: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Violation>;

pub fn fail<T>(class: &str, msg: impl Into<String>) -> R<T> {
    Err(Violation {
        class: class.to_string(),
        msg: msg.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::ctx::fail($class, format!($($arg)*));
        }
    };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counters: BTreeMap<String, u64>,
    /// Simulated time: one tick per I/O call or library operation.
    pub ticks: u64,
}

impl Stats {
    pub fn add(&mut self, key: &str, n: u64) {
        if n > 0 {
            if let Some(c) = self.counters.get_mut(key) {
                *c += n;
            } else {
                self.counters.insert(key.to_string(), n);
            }
        }
    }

    pub fn merge(&mut self, other: &Stats) {
        for (k, v) in &other.counters {
            self.add(k, *v);
        }
        self.ticks += other.ticks;
    }
}

pub struct Ctx {
    pub src: Src,
    pub stats: Stats,
    pub trace: Option<Vec<String>>,
    pub hash: u64,
    /// Set when the run did something that counts by the property's rule.
    pub nontrivial: bool,
}

impl Ctx {
    pub fn new(src: Src, trace: bool) -> Self {
        Self {
            src,
            stats: Stats::default(),
            trace: trace.then(Vec::new),
            hash: 0xcbf29ce484222325,
            nontrivial: false,
        }
    }

    /// Folds an event into the run's identity.
    pub fn note(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.hash = (self.hash ^ u64::from(*b)).wrapping_mul(0x100000001b3);
        }
        self.hash = (self.hash ^ 0xFF).wrapping_mul(0x100000001b3);
    }

    pub fn note_n(&mut self, n: usize) {
        self.note(&(n as u64).to_le_bytes());
    }

    pub fn count(&mut self, key: &str, n: u64) {
        self.stats.add(key, n);
    }

    pub fn probe(&mut self, key: &str) {
        self.stats.add(key, 1);
    }

    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            t.push(f());
        }
    }
}
