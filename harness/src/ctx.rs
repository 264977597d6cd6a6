//! Per-case context: evidence counters, findings, replay description.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
#[macro_export]
macro_rules! fail { ($($a:tt)*) => { return Err(format!($($a)*)) }; }

thread_local! { pub static INPUT: RefCell<String> = RefCell::new(String::new()); }

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub case: usize,
    pub rng: Rng,
    pub evals: u64,
    pub hashes: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub maxima: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub findings: BTreeMap<String, String>,
    pub scratch: String,
    pub verbose: bool,
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, scratch: String) -> Ctx {
        Ctx { seed, thorough, case: 0, rng: Rng::new(seed), evals: 0, hashes: HashSet::new(), counters: BTreeMap::new(),
            maxima: BTreeMap::new(), samples: vec![], findings: BTreeMap::new(), scratch, verbose: false }
    }
    pub fn start(&mut self, prop: &str, case: usize) {
        self.case = case;
        self.rng = Rng::new(mix(crate::rng::hash_bytes(prop.as_bytes()) ^ mix(self.seed)) ^ mix(case as u64 + 77));
    }
    /// Describe the input about to be run; kept for replay files.
    pub fn input(&mut self, s: String) {
        if self.verbose { println!("INPUT {}", s) }
        INPUT.with(|i| *i.borrow_mut() = s);
    }
    /// One evaluation done: an execution the oracle judged.
    pub fn eval(&mut self, nontrivial: bool, h: u64) {
        self.evals += 1;
        if nontrivial && self.hashes.len() < 400_000 { self.hashes.insert(mix(h)); }
    }
    pub fn bump(&mut self, k: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(k) { *c += n } else { self.counters.insert(k.to_string(), n); }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let c = self.maxima.entry(k.to_string()).or_insert(0);
        *c = (*c).max(n);
    }
    pub fn sample<F: FnOnce() -> String>(&mut self, f: F) {
        if self.samples.len() < 3 || (self.samples.len() < 6 && self.case % 97 == 13) { let mut s = f(); if s.len() > 600 { s = s.chars().take(600).collect() } self.samples.push(s) }
    }
    /// A defect with its own signature, which the driver may match against the
    /// committed list of known findings.
    pub fn finding(&mut self, key: &str, msg: String) {
        self.findings.entry(key.to_string()).or_insert(msg);
    }
}

/// a caught panic must not be reported as the cause of a later one
pub fn forget_panic() { if let Ok(mut p) = crate::PANIC.lock() { *p = None } }
