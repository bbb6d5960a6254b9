//! Case runner: deterministic, sharded, replayable cases; monitors report
//! violations and count what they observed.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub struct Viol {
    pub phase: String,
    pub index: u64,
    pub msg: String,
    pub input: String,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub shard: u64,
    pub nshards: u64,
    /// scale of case counts in percent
    pub scale: u64,
    /// only this phase / index
    pub only: Option<(String, u64)>,
    pub trace: Option<crate::trace::Trace>,
    pub deadline: Option<std::time::Instant>,
    pub truncated: bool,
    pub evals: u64,
    pub input: String,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub counters: BTreeMap<String, u64>,
    pub phases: Vec<(String, u64, u64)>,
    pub bitmap: Vec<u64>,
    pub distinct_local: u64,
    pub digests: Vec<(String, u64)>,
    offset: u64,
}

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static CURRENT: AtomicU64 = AtomicU64::new(0);
pub static CURPHASE: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // keeps one buffer, so that a panic leaves no allocation of its own behind
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            p.clear();
            p.reserve(8192);
            for c in msg.chars().take(1500) {
                p.push(c);
            }
            let _ = write!(p, " at {}", loc);
        });
    }));
}

/// Runs f; Err(panic message) if it panicked.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

pub const BITS: usize = if cfg!(miri) { 1 << 14 } else { 1 << 25 };

impl Ctx {
    pub fn new(prop: &str, seed: u64) -> Ctx {
        Ctx {
            prop: prop.to_string(),
            seed,
            thorough: false,
            shard: 0,
            nshards: 1,
            scale: 100,
            only: None,
            trace: None,
            deadline: None,
            truncated: false,
            evals: 0,
            input: String::new(),
            samples: Vec::new(),
            viols: Vec::new(),
            counters: BTreeMap::new(),
            phases: Vec::new(),
            bitmap: Vec::new(),
            distinct_local: 0,
            digests: Vec::new(),
            offset: 0,
        }
    }

    pub fn count(&mut self, what: &str, n: u64) {
        if n == 0 {
            return;
        }
        match self.counters.get_mut(what) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(what.to_string(), n);
            }
        }
    }

    /// Records the input of the current case (for reports).
    pub fn set_input(&mut self, s: &str) {
        self.input.clear();
        self.input.push_str(s);
    }

    /// The case was non-trivial and is identified by this hash.
    pub fn nontrivial(&mut self, hash: u64) {
        if self.bitmap.is_empty() {
            self.bitmap = vec![0; BITS / 64];
        }
        let b = (mix(hash) as usize) % BITS;
        let w = &mut self.bitmap[b / 64];
        if *w & (1 << (b % 64)) == 0 {
            *w |= 1 << (b % 64);
            self.distinct_local += 1;
        }
    }

    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let mut t = s();
            if t.len() > 300 {
                let mut n = 300;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t.push_str("...");
            }
            self.samples.push(t);
        }
    }

    /// number of cases of a phase, by tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let n = if self.thorough { thorough } else { quick };
        (n * self.scale / 100).max(1)
    }

    /// Runs the cases 0..n of a phase that belong to this shard.
    pub fn phase(&mut self, name: &str, n: u64, mut f: impl FnMut(&mut Ctx, u64, &mut Rng) -> Result<(), String>) {
        let tag = crate::rng::hash_bytes(format!("{}/{}", self.prop, name).as_bytes());
        // for development: only some phases
        if std::env::var("MON_PHASE").is_ok_and(|p| !name.starts_with(&p)) {
            return;
        }
        *CURPHASE.lock().unwrap() = name.to_string();
        if let Some(t) = &mut self.trace {
            t.phase(name);
        }
        let first = match &self.only {
            Some((p, i)) => {
                if p != name {
                    return;
                }
                *i
            }
            None => (self.shard + self.offset) % self.nshards,
        };
        self.offset += n;
        let mut i = first;
        let mut done = 0u64;
        while i < n || self.only.is_some() {
            CURRENT.store(i, Ordering::Relaxed);
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            if let Some(t) = &mut self.trace {
                t.case(i);
            }
            if done % 256 == 0 {
                if let Some(d) = self.deadline {
                    if std::time::Instant::now() > d {
                        self.truncated = true;
                        break;
                    }
                }
            }
            self.input.clear();
            let mut rng = Rng::new(self.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ tag ^ mix(i));
            let r = match panic::catch_unwind(AssertUnwindSafe(|| f(self, i, &mut rng))) {
                Ok(r) => r,
                Err(_) => Err(format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
            };
            self.evals += 1;
            done += 1;
            if let Err(msg) = r {
                let mut input = self.input.clone();
                if input.len() > 20000 {
                    let mut n = 20000;
                    while !input.is_char_boundary(n) {
                        n -= 1;
                    }
                    input.truncate(n);
                }
                self.viols.push(Viol { phase: name.to_string(), index: i, msg, input });
                if self.viols.len() >= 20 {
                    break;
                }
            }
            if self.only.is_some() {
                break;
            }
            i += self.nshards;
        }
        self.phases.push((name.to_string(), n, done));
    }

    pub fn json(&self) -> String {
        let mut o = String::from("{");
        let _ = write!(o, "\"evals\":{},\"truncated\":{},\"distinct\":{},", self.evals, self.truncated, self.distinct_local);
        o.push_str("\"counters\":{");
        for (i, (k, v)) in self.counters.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}:{}", js(k), v);
        }
        o.push_str("},\"phases\":[");
        for (i, (n, total, done)) in self.phases.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "[{},{},{}]", js(n), total, done);
        }
        o.push_str("],\"samples\":[");
        for (i, s) in self.samples.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&js(s));
        }
        o.push_str("],\"violations\":[");
        for (i, v) in self.viols.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(
                o,
                "{{\"phase\":{},\"index\":{},\"msg\":{},\"input\":{}}}",
                js(&v.phase),
                v.index,
                js(&v.msg),
                js(&v.input)
            );
        }
        o.push_str("],\"digests\":{");
        for (i, (k, v)) in self.digests.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            let _ = write!(o, "{}:\"{:016x}\"", js(k), v);
        }
        o.push_str("}}");
        o
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
