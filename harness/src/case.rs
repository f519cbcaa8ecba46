//! A case: one monitored execution of the code under test, and what was observed.
use crate::rng::{hash_bytes, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

/// Last panic seen by the hook (message, location).
pub static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case),
}

pub struct Property {
    pub id: &'static str,
    /// how cases are made and what makes one non trivial (evidence "rule")
    pub rule: &'static str,
    pub workloads: &'static [Workload],
    /// counters that must have been observed (non zero) for a verdict
    pub must_observe: &'static [&'static str],
}

pub struct Fail {
    pub workload: String,
    pub case: u64,
    pub sig: String,
    pub detail: String,
    pub attachments: Vec<(String, String)>,
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    /// signatures of listed findings, and how often each was met
    pub known: BTreeMap<String, u64>,
}

impl Stats {
    /// enough unlisted failures to stop
    pub fn full(&self) -> bool {
        self.fails.len() >= 60 + self.known.len()
    }
}

pub struct Case<'a> {
    pub rng: Rng,
    pub seed: u64,
    pub idx: u64,
    pub tier: Tier,
    pub workload: &'static str,
    pub st: &'a mut Stats,
    pub attachments: Vec<(String, String)>,
    pub failed: bool,
}

pub fn case_seed(seed: u64, prop: &str, wl: &str, idx: u64) -> u64 {
    mix(seed
        ^ hash_bytes(prop.as_bytes()).rotate_left(17)
        ^ hash_bytes(wl.as_bytes()).rotate_left(34)
        ^ mix(idx.wrapping_add(0x51)))
}

impl<'a> Case<'a> {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(c) = self.st.counters.get_mut(k) {
            *c += n;
        } else {
            self.st.counters.insert(k.to_string(), n);
        }
    }
    /// one oracle evaluation
    pub fn eval(&mut self) {
        self.st.evaluations += 1;
    }
    /// register a non trivial case by content
    pub fn distinct(&mut self, content: &[u8]) {
        self.st.distinct.insert(hash_bytes(content));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 3 {
            let mut s = f();
            if s.len() > 3000 {
                let mut n = 3000;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.st.samples.push(s);
        }
    }
    pub fn attach(&mut self, name: &str, content: impl Into<String>) {
        self.attachments.push((name.to_string(), content.into()));
    }
    /// Reports a violation. `sig` identifies what failed, specific enough to tell
    /// one failure from another; `detail` is for the reader.
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let sig = sig.into();
        if let Some(n) = self.st.known.get_mut(&sig) {
            // listed finding: reported once, stops nothing
            *n += 1;
            if *n > 1 {
                return;
            }
        } else {
            self.failed = true;
            if self.st.full() {
                return;
            }
        }
        self.st.fails.push(Fail {
            workload: self.workload.to_string(),
            case: self.idx,
            sig,
            detail: detail.into(),
            attachments: self.attachments.clone(),
        });
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        self.eval();
        if !ok {
            let d = detail();
            self.fail(sig, d);
        }
        ok
    }
    /// Runs code under test; a panic is a violation (`panic:<label>`).
    pub fn call<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch(f) {
            Ok(v) => Some(v),
            Err((msg, loc)) => {
                self.eval();
                self.fail(format!("panic:{label}"), format!("panicked: {msg} at {loc}"));
                None
            },
        }
    }
}

/// Runs code under test, giving (message, location) of a panic.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .take()
            .unwrap_or(("?".into(), "?".into()))),
    }
}
