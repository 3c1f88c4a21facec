//! Per-worker context: what the monitors observed, and the violations they saw.

use std::{
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs,
    io::Write as _,
    os::unix::fs::FileExt,
};

use crate::rng::{Rng, hash_bytes, mix};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub idx: u64,
    /// Stable identification of what failed.
    pub sig: String,
    pub detail: String,
    pub input: String,
}

pub struct Ctx {
    pub seed: u64,
    pub tier: Tier,
    pub idx: u64,
    pub rng: Rng,
    pub evaluations: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub nfails: u64,
    pub current_input: String,
    heartbeat: Option<fs::File>,
}

pub fn case_seed(seed: u64, prop: &str, idx: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(prop.as_bytes())) ^ mix(idx))
}

impl Ctx {
    pub fn new(seed: u64, tier: Tier, heartbeat: Option<fs::File>) -> Self {
        Ctx {
            seed,
            tier,
            idx: 0,
            rng: Rng::new(0),
            evaluations: 0,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            fails: vec![],
            nfails: 0,
            current_input: String::new(),
            heartbeat,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Begin case `idx`.
    pub fn start(&mut self, prop: &str, idx: u64) {
        self.idx = idx;
        self.rng = Rng::new(case_seed(self.seed, prop, idx));
        self.current_input.clear();
        if let Some(h) = &self.heartbeat {
            let _ = h.write_at(&idx.to_le_bytes(), 0);
        }
    }

    /// Note the text that is about to be given to the code under test.
    pub fn input(&mut self, s: &str) {
        self.current_input.clear();
        self.current_input.push_str(s);
        if let Some(h) = &self.heartbeat {
            let n = s.len().min(1 << 20) as u64;
            let _ = h.write_at(&n.to_le_bytes(), 8);
            let _ = h.write_at(&s.as_bytes()[..n as usize], 16);
        }
    }

    pub fn eval(&mut self) {
        self.evaluations += 1;
    }

    pub fn count(&mut self, key: &str) {
        self.add(key, 1);
    }

    pub fn add(&mut self, key: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(key) {
            *c += n;
        } else {
            self.counters.insert(key.to_string(), n);
        }
    }

    /// Note a distinct non-trivial case or state.
    pub fn distinct(&mut self, key: &str) {
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(hash_bytes(key.as_bytes()));
        }
    }

    pub fn sample(&mut self, s: &str) {
        if self.samples.len() < 3 {
            let t: String = s.chars().take(600).collect();
            self.samples.push(t);
        }
    }

    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let input = self.current_input.clone();
        self.fail_on(sig, detail, &input);
    }

    pub fn fail_on(&mut self, sig: impl Into<String>, detail: impl Into<String>, input: &str) {
        self.nfails += 1;
        if self.fails.len() < 60 {
            self.fails.push(Fail {
                idx: self.idx,
                sig: sig.into(),
                detail: detail.into(),
                input: input.to_string(),
            });
        }
    }

    /// Report a violation unless `a == b`.
    pub fn expect_eq<T: PartialEq + std::fmt::Debug>(&mut self, sig: &str, expected: &T, got: &T) -> bool {
        if expected == got {
            true
        } else {
            self.fail(sig, format!("expected {expected:?}\n     got {got:?}"));
            false
        }
    }

    pub fn check(&mut self, sig: &str, ok: bool, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(sig, detail());
        }
        ok
    }

    pub fn write_out(&self, path: &str, next: u64, done: bool) {
        let mut s = String::new();
        let _ = writeln!(s, "E {}", self.evaluations);
        let _ = writeln!(s, "N {next}");
        let _ = writeln!(s, "X {}", self.nfails);
        for (k, v) in &self.counters {
            let _ = writeln!(s, "C {} {}", v, esc(k));
        }
        for x in &self.samples {
            let _ = writeln!(s, "S {}", esc(x));
        }
        for f in &self.fails {
            let _ = writeln!(s, "F {} {} {} {}", f.idx, esc(&f.sig), esc(&f.detail), esc(&f.input));
        }
        for d in &self.distinct {
            let _ = writeln!(s, "D {d:x}");
        }
        if done {
            let _ = writeln!(s, "DONE");
        }
        let tmp = format!("{path}.tmp");
        if let Ok(mut f) = fs::File::create(&tmp) {
            let _ = f.write_all(s.as_bytes());
            let _ = fs::rename(&tmp, path);
        }
    }
}

/// Escape so that the result has no whitespace.
pub fn esc(s: &str) -> String {
    if s.is_empty() {
        return "%".into();
    }
    let mut r = String::with_capacity(s.len() + 8);
    for c in s.chars() {
        if c == '%' || c.is_whitespace() || c.is_control() {
            let _ = write!(r, "%{:x};", c as u32);
        } else {
            r.push(c);
        }
    }
    r
}

pub fn unesc(s: &str) -> String {
    if s == "%" {
        return String::new();
    }
    let mut r = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '%' {
            let mut h = String::new();
            for d in it.by_ref() {
                if d == ';' {
                    break;
                }
                h.push(d);
            }
            if let Some(ch) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                r.push(ch);
            }
        } else {
            r.push(c);
        }
    }
    r
}

pub fn json_str(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..0xa0).contains(&(c as u32)) => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
