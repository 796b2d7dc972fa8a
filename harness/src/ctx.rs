//! What a property's case function reports to: observations, samples, violations.
use crate::util;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable signature of what failed (matched against known-findings.json).
    pub sig: String,
    pub detail: String,
    pub input: Vec<u8>,
    pub case: u64,
}
pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub case: u64,
    pub evals: u64,
    pub hashes: Vec<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    /// The input in use, reported if the code under test panics or dies.
    pub input: Vec<u8>,
    pub out: Option<std::path::PathBuf>,
    /// C29, C30: case, input, results of the parser, results of derived streams.
    pub digests: Vec<[u64; 4]>,
    /// C30: the inputs for the other machines, all and short ones.
    pub corpus: (Vec<u8>, Vec<u8>),
}
impl Ctx {
    pub fn new(seed: u64, thorough: bool, out: Option<std::path::PathBuf>) -> Ctx {
        Ctx {
            seed,
            thorough,
            case: 0,
            evals: 0,
            hashes: vec![],
            counters: BTreeMap::new(),
            samples: vec![],
            violations: vec![],
            input: vec![],
            out,
            digests: vec![],
            corpus: (vec![], vec![]),
        }
    }
    pub fn n(&mut self, k: &str, v: u64) {
        if let Some(c) = self.counters.get_mut(k) {
            *c += v;
        } else {
            self.counters.insert(k.to_string(), v);
        }
    }
    pub fn c(&mut self, k: &str) {
        self.n(k, 1)
    }
    /// One evaluation of the oracle; `nontrivial` by the property's rule.
    pub fn eval(&mut self, hash: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.hashes.push(hash);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 3 {
            let s = util::clip(&f(), 600);
            self.samples.push(s);
        }
    }
    pub fn violate(&mut self, sig: &str, detail: String, input: &[u8]) {
        if self.violations.iter().filter(|v| v.sig == sig).count() >= 2 || self.violations.len() >= 20 {
            self.c("violations-not-recorded");
            return;
        }
        self.violations.push(Violation {
            sig: sig.to_string(),
            detail: util::clip(&detail, 4000),
            input: input[..input.len().min(300_000)].to_vec(),
            case: self.case,
        });
    }
    pub fn set_input(&mut self, b: &[u8]) {
        self.input.clear();
        self.input.extend_from_slice(b);
    }
}
