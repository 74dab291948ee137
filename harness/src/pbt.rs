//! A small choice-sequence property-based testing engine.
//!
//! Every random decision of a generator is one `draw(n)`. The sequence of
//! drawn numbers *is* the test case: it is recorded, it can be replayed, and
//! shrinking edits it (delete, zero, lower) and re-runs the property. 0 is
//! always the simplest choice, and a sequence that ends early continues with
//! zeroes.
use std::collections::BTreeMap;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    // splitmix64
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    Rng::new(h).next()
}

pub struct Src {
    rng: Option<Rng>,
    replay: Vec<u64>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src {
            rng: Some(Rng::new(seed)),
            replay: vec![],
            rec: vec![],
        }
    }
    pub fn replay(choices: &[u64]) -> Src {
        Src {
            rng: None,
            replay: choices.to_vec(),
            rec: vec![],
        }
    }
    /// A number in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match self.rng {
            Some(ref mut r) => r.next() % n,
            None => self.replay.get(self.rec.len()).cloned().unwrap_or(0).min(n - 1),
        };
        self.rec.push(v);
        v
    }
    pub fn n(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// true in `num` of `den` cases; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.n(xs.len());
        &xs[i]
    }
    /// Choose an index by weight; put the simplest alternative first
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = self.draw(total as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        w.len() - 1
    }
    /// How many elements a list gets: `min`, then one more with probability
    /// num/den each, at most `max`. One draw per element.
    pub fn more(&mut self, so_far: usize, min: usize, max: usize, num: u64, den: u64) -> bool {
        so_far < min || (so_far < max && self.chance(num, den))
    }
}

pub enum Outcome {
    Pass,
    /// Outside of the property's domain; not counted as evaluated
    Discard(&'static str),
    Fail(String),
}

/// What a property says about one case besides pass/fail
#[derive(Default)]
pub struct Rep {
    pub case: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}
impl Rep {
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l)
        }
    }
}

pub type Prop = fn(&mut Src, &mut Rep, &mut Env) -> Outcome;

/// Per-thread resources of a property
pub struct Env {
    /// A scratch directory of this thread
    pub dir: std::path::PathBuf,
    pub thorough: bool,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evaluations: u64,
    pub discards: BTreeMap<&'static str, u64>,
    pub nontrivial: u64,
    pub hashes: std::collections::HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<(u64, String)>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        for (k, v) in o.discards {
            *self.discards.entry(k).or_insert(0) += v;
        }
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        self.hashes.extend(o.hashes);
        self.samples.extend(o.samples);
    }
}

pub fn case_seed(seed: u64, prop: &str, index: u64) -> u64 {
    let mut b = prop.as_bytes().to_vec();
    b.extend_from_slice(&seed.to_le_bytes());
    b.extend_from_slice(&index.to_le_bytes());
    hash_bytes(&b)
}

/// Shrink `choices` as far as `fails` allows. `fails` returns the choices that
/// were actually used if the candidate still fails.
pub fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let better = |a: &[u64], b: &[u64]| (a.len(), a) < (b.len(), b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if left == 0 {
                return best;
            }
            left -= 1;
            match fails(&cand) {
                Some(used) => {
                    let mut used = used;
                    while used.last() == Some(&0) {
                        used.pop();
                    }
                    if better(&used, &best) {
                        best = used;
                        true
                    } else {
                        false
                    }
                }
                None => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // delete chunks
        for size in [32usize, 16, 8, 5, 4, 3, 2, 1].iter() {
            let mut i = best.len();
            while i > 0 {
                i -= 1;
                if i + size > best.len() {
                    continue;
                }
                let mut c = best.clone();
                c.drain(i..i + size);
                attempt!(c);
                if i > best.len() {
                    i = best.len();
                }
            }
        }
        // zero chunks
        for size in [8usize, 4, 2, 1].iter() {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] {
                        *x = 0;
                    }
                    attempt!(c);
                }
                i += size;
            }
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0;
            let mut guard = 0;
            while i < best.len() && lo < best[i] && guard < 12 {
                guard += 1;
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        // delete an element while lowering an earlier one
        let mut i = 0;
        while i + 1 < best.len() {
            if best[i] > 0 {
                for size in 1..=3 {
                    if i + 1 + size <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + size);
                        if attempt!(c) {
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before {
            return best;
        }
    }
}
