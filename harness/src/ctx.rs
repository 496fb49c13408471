//! What a worker reports: counts, distinct cases, samples, violations.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

pub struct Viol {
    pub seed: u64,
    pub what: String,
    pub detail: String,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxs: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub viol_total: u64,
    pub known: BTreeMap<String, String>,
    /// Order independent digest of every outcome by seed (C21).
    pub digest: Vec<(u64, u64)>,
}

thread_local! {
    pub static PANIC: RefCell<String> = RefCell::new(String::new());
}

impl Ctx {
    pub fn new(thorough: bool) -> Self {
        Ctx {
            seed: 0,
            thorough,
            evals: 0,
            cases: 0,
            distinct: HashSet::new(),
            counts: BTreeMap::new(),
            maxs: BTreeMap::new(),
            samples: vec![],
            viols: vec![],
            viol_total: 0,
            known: BTreeMap::new(),
            digest: vec![],
        }
    }
    /// One comparison by an oracle; `key` identifies the case for the distinct count when not trivial.
    pub fn eval(&mut self, key: Option<u64>) {
        self.evals += 1;
        if let Some(k) = key {
            if self.distinct.len() < 3_000_000 {
                self.distinct.insert(k);
            }
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        match self.counts.get_mut(name) {
            Some(c) => *c += n,
            None => {
                self.counts.insert(name.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let e = self.maxs.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s: String = f().chars().take(900).collect();
            self.samples.push(s);
        }
    }
    pub fn viol(&mut self, what: &str, detail: String) {
        self.viol_total += 1;
        if self.viols.len() < 20 {
            let detail: String = detail.chars().take(20_000).collect();
            self.viols.push(Viol {
                seed: self.seed,
                what: what.to_string(),
                detail,
            });
        }
    }
}

pub fn text(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("{:?}", s),
        Err(_) => format!("bytes {:?}", b),
    }
}
