use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Rng(s.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub bin: String,
    pub work: String,
    pub prop: String,
    pub deadline: std::time::Instant,
    pub viol: Vec<Value>,
    pub evals: u64,
    pub distinct: std::collections::BTreeSet<u64>,
    pub samples: Vec<Value>,
    pub rule: String,
    pub counts: BTreeMap<String, u64>,
}
impl Ctx {
    pub fn time_left(&self) -> bool {
        std::time::Instant::now() < self.deadline && self.viol.len() < 8
    }
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_default() += n;
    }
    /// one case was run; `key` identifies it, `nontrivial` counts it
    pub fn case<T: std::hash::Hash>(&mut self, key: &T, nontrivial: bool) {
        use std::hash::Hasher;
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            key.hash(&mut h);
            self.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 3 {
            self.samples.push(v);
        }
    }
    pub fn violate(&mut self, props: &[&str], what: String, replay: Value) {
        for p in props {
            if *p == self.prop || self.prop.is_empty() {
                self.viol.push(json!({"prop": p, "what": what, "replay": replay}));
                return;
            }
        }
        self.viol.push(json!({"prop": props[0], "what": what, "replay": replay}));
    }
    pub fn result(&self) -> Value {
        json!({"violations": self.viol, "stats": {"evaluations": self.evals, "distinct_nontrivial": self.distinct.len(),
            "rule": self.rule, "samples": self.samples, "counts": self.counts}})
    }
}
