//! Property engine: proptest generation and shrinking, replay files, evidence counters.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
}

/// What a single case reports: whether it was non-trivial, and labels for the distribution.
#[derive(Default)]
pub struct Case {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Case {
    pub fn nt(b: bool) -> Case {
        Case { nontrivial: b, labels: vec![] }
    }
    pub fn label(mut self, s: impl Into<String>) -> Case {
        self.labels.push(s.into());
        self
    }
}

pub type CaseResult = Result<Case, String>;

pub struct Failure {
    pub test: String,
    pub message: String,
    pub value: serde_json::Value,
}

pub trait Test {
    fn name(&self) -> &'static str;
    fn weight(&self) -> u32;
    fn run(&self, seed: u64, cases: u32, stats: &mut Stats) -> Result<(), Failure>;
    fn replay(&self, v: &serde_json::Value) -> CaseResult;
}

pub struct Prop<V, S: Fn() -> proptest::strategy::BoxedStrategy<V>> {
    pub name: &'static str,
    pub weight: u32,
    pub strategy: S,
    pub check: fn(&V) -> CaseResult,
}

fn guarded<V>(check: fn(&V) -> CaseResult, v: &V) -> CaseResult {
    match catch_unwind(AssertUnwindSafe(|| check(v))) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(&*e))),
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

impl<V, S> Test for Prop<V, S>
where
    V: Debug + Serialize + DeserializeOwned + Clone,
    S: Fn() -> proptest::strategy::BoxedStrategy<V>,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn weight(&self) -> u32 {
        self.weight
    }
    fn run(&self, seed: u64, cases: u32, stats: &mut Stats) -> Result<(), Failure> {
        let mut h = DefaultHasher::new();
        self.name.hash(&mut h);
        let mut bytes = [0u8; 32];
        bytes[..8].copy_from_slice(&seed.to_le_bytes());
        bytes[8..16].copy_from_slice(&h.finish().to_le_bytes());
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut runner =
            TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
        let strat = (self.strategy)();
        for i in 0..cases {
            let mut tree = strat.new_tree(&mut runner).expect("strategy");
            let v = tree.current();
            stats.evaluations += 1;
            match guarded(self.check, &v) {
                Ok(c) => {
                    *stats.labels.entry(format!("test:{}", self.name)).or_default() += 1;
                    for l in &c.labels {
                        *stats.labels.entry(l.clone()).or_default() += 1;
                    }
                    if c.nontrivial {
                        let mut h = DefaultHasher::new();
                        let js = serde_json::to_string(&v).unwrap();
                        self.name.hash(&mut h);
                        js.hash(&mut h);
                        if stats.nontrivial.insert(h.finish())
                            && (i < 2 || i == cases / 2)
                            && stats.samples.len() < 30
                            && js.len() < 1500
                        {
                            stats.samples.push(
                                serde_json::json!({"test": self.name, "case": serde_json::to_value(&v).unwrap()}),
                            );
                        }
                    }
                }
                Err(first) => {
                    // shrink
                    let mut best = v;
                    let mut msg = first;
                    let mut steps = 0;
                    let mut more = tree.simplify();
                    while more && steps < 3000 {
                        steps += 1;
                        let cand = tree.current();
                        match guarded(self.check, &cand) {
                            Err(m) => {
                                best = cand;
                                msg = m;
                                more = tree.simplify();
                            }
                            Ok(_) => more = tree.complicate(),
                        }
                    }
                    return Err(Failure {
                        test: self.name.into(),
                        message: msg,
                        value: serde_json::to_value(&best).unwrap(),
                    });
                }
            }
        }
        Ok(())
    }
    fn replay(&self, v: &serde_json::Value) -> CaseResult {
        let v: V = serde_json::from_value(v.clone()).expect("replay value does not parse");
        guarded(self.check, &v)
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
