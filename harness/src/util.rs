//! Deterministic case generation, comparison helpers and violation records.
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn f(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn r(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    pub fn n(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn b(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn log(&mut self, lo: f64, hi: f64) -> f64 {
        (self.r(lo.ln(), hi.ln())).exp()
    }
    pub fn sign(&mut self) -> f64 {
        if self.b() {
            1.0
        } else {
            -1.0
        }
    }
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Viol {
    pub oracle: String,
    pub case: u64,
    pub detail: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub scale: u64,
    pub only: Option<(String, u64)>,
    pub evals: u64,
    pub nontrivial: u64,
    pub viols: Vec<Viol>,
    pub samples: Vec<String>,
    pub per: std::collections::BTreeMap<String, u64>,
    pub scratch: std::path::PathBuf,
}

pub type R = Result<(), String>;

impl Ctx {
    /// run `n * scale` cases of an oracle; the closure gets a generator seeded by (seed, oracle, case)
    pub fn cases(&mut self, oracle: &str, n: u64, mut f: impl FnMut(&mut Rng, u64) -> Result<String, String>) {
        let total = n * self.scale;
        let mut bad = 0;
        for k in 0..total {
            if let Some((o, c)) = &self.only {
                if o != oracle || *c != k {
                    continue;
                }
            }
            if bad >= 2 {
                break;
            }
            let mut rng = Rng(self.seed.wrapping_mul(0x2545F4914F6CDD1D) ^ hash(oracle) ^ k.wrapping_mul(0xD6E8FEB86659FD93));
            rng.next();
            crate::gen::reset_units();
            self.evals += 1;
            *self.per.entry(oracle.to_string()).or_insert(0) += 1;
            let res = catch_unwind(AssertUnwindSafe(|| f(&mut rng, k)));
            match res {
                Ok(Ok(desc)) => {
                    if desc != "trivial" {
                        self.nontrivial += 1;
                        if self.per[oracle] == 1 && self.samples.len() < 12 {
                            self.samples.push(format!("{oracle}/{k}: {desc}"));
                        }
                    }
                }
                Ok(Err(e)) => {
                    bad += 1;
                    self.viols.push(Viol { oracle: oracle.to_string(), case: k, detail: e });
                }
                Err(p) => {
                    bad += 1;
                    let m = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_else(|| "panic".into());
                    self.viols.push(Viol { oracle: oracle.to_string(), case: k, detail: format!("panicked: {m}") });
                }
            }
        }
    }
}

pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || a == b || (a.is_nan() && b.is_nan())
}

/// equality up to rounding relative to the magnitude of the terms involved
pub fn near(a: f64, b: f64, scale: f64) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a == b {
        return true;
    }
    (a - b).abs() <= 1e-10 * (scale.abs() + a.abs().min(b.abs())) + 1e-290
}

pub fn want(ok: bool, msg: impl FnOnce() -> String) -> R {
    if ok {
        Ok(())
    } else {
        Err(msg())
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
