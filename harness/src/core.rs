//! Case runner: every case is announced in a state file before it runs, so that the parent process
//! can name the input that made the child hang, abort or overflow its stack.
use std::collections::HashSet;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + (self.next() % ((hi - lo + 1) as u64)) as i64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.next() % den < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

pub struct Violation { pub input: String, pub detail: String, pub aside: bool }

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub only: Option<String>,
    start: Instant,
    budget: Duration,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    state: File,
    pub violations: Vec<Violation>,
    pub parts: Vec<(String, u64)>,
    pub exhaustive_notes: Vec<String>,
}

pub const MAXSTATE: usize = 8192;

impl Ctx {
    pub fn new(seed: u64, thorough: bool, budget_s: u64, state: File) -> Ctx {
        Ctx { rng: Rng::new(seed), thorough, only: None, start: Instant::now(), budget: Duration::from_secs(budget_s),
              evals: 0, distinct: HashSet::new(), nontrivial: 0, samples: vec![], state,
              violations: vec![], parts: vec![], exhaustive_notes: vec![] }
    }
    /// More random cases wanted?  (`frac`: share of the whole budget that may have been used up so far)
    pub fn more(&self, frac: f64) -> bool {
        self.hits() < 3 && self.start.elapsed().as_secs_f64() < self.budget.as_secs_f64() * frac
    }
    pub fn stop(&self) -> bool { self.hits() >= 3 }
    fn hits(&self) -> usize { self.violations.iter().filter(|v| !v.aside).count() }
    /// A case that is a recorded finding: reported like any other, but it does not end the run.
    pub fn known<F: FnOnce() -> Result<(), String>>(&mut self, desc: &str, f: F) {
        let n = self.violations.len();
        self.case(desc, true, f);
        if self.violations.len() > n { self.violations[n].aside = true; }
    }
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }
    pub fn part(&mut self, name: &str) { self.parts.push((name.to_string(), self.evals)); }
    pub fn note(&mut self, s: &str) { self.exhaustive_notes.push(s.to_string()); }

    fn announce(&self, desc: &str) {
        let b = desc.as_bytes();
        let n = b.len().min(MAXSTATE);
        let mut buf = Vec::with_capacity(n + 16);
        buf.extend_from_slice(&self.evals.to_le_bytes());
        buf.extend_from_slice(&(n as u64).to_le_bytes());
        buf.extend_from_slice(&b[..n]);
        let _ = self.state.write_at(&buf, 0);
    }

    /// Runs one case.  `desc` must name the input completely.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, desc: &str, nontrivial: bool, f: F) {
        if self.hits() >= 3 { return; }
        self.evals += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.distinct.len() < 4_000_000 { self.distinct.insert(h.finish()); }
            if self.samples.len() < 3 || (self.samples.len() < 8 && self.evals % 977 == 0) { self.samples.push(desc.to_string()); }
        }
        self.announce(desc);
        let r = catch_unwind(AssertUnwindSafe(f));
        let err = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => {
                let m = if let Some(s) = p.downcast_ref::<&str>() { s.to_string() }
                        else if let Some(s) = p.downcast_ref::<String>() { s.clone() } else { "?".into() };
                format!("the code panicked: {}", m)
            }
        };
        self.violations.push(Violation { input: desc.to_string(), detail: err, aside: false });
    }
    pub fn distinct(&self) -> u64 { self.distinct.len() as u64 }
    pub fn elapsed(&self) -> f64 { self.start.elapsed().as_secs_f64() }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"'); o
}
