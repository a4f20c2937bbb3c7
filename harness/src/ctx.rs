//! Exploration context: counts cases, catches panics, stops at the first failing case and
//! records it so that it can be replayed.
use serde::Serialize;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Deterministic generator (splitmix64).
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9abc_def1))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// An alphabetic word (kept by the tokenizer), never an error keyword or hex-like.
    pub fn word(&mut self, len: usize) -> String {
        (0..len).map(|_| *self.pick(&['g', 'h', 'j', 'k', 'l', 'm', 'o', 'p', 'q', 'u', 'v', 'w', 'y'])).collect()
    }
}

#[derive(Serialize, Clone, Debug)]
pub struct Failure {
    pub kind: String,
    pub message: String,
    pub case: serde_json::Value,
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub evaluations: u64,
    pub nontrivial: u64,
    seen: HashSet<u64>,
    pub per_kind: std::collections::BTreeMap<String, u64>,
    pub samples: Vec<serde_json::Value>,
    pub failure: Option<Failure>,
    pub current_file: PathBuf,
    pub deadline: Instant,
    pub scratch: PathBuf,
}

// The watchdog state: milliseconds since start of the current case (0: idle).
static START: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<Failure>> = Mutex::new(None);
pub const CASE_LIMIT_S: u64 = 150;

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

impl Ctx {
    pub fn new(seed: u64, thorough: bool, budget: Duration, current_file: PathBuf, scratch: PathBuf) -> Ctx {
        Ctx {
            seed,
            thorough,
            evaluations: 0,
            nontrivial: 0,
            seen: HashSet::new(),
            per_kind: Default::default(),
            samples: Vec::new(),
            failure: None,
            current_file,
            deadline: Instant::now() + budget,
            scratch,
        }
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(1_000_003).wrapping_add(salt))
    }
    /// Is there time (and no failure yet)?
    pub fn go(&self) -> bool {
        self.failure.is_none() && Instant::now() < self.deadline
    }
    pub fn failed(&self) -> bool {
        self.failure.is_some()
    }
    /// Scale a case count by tier.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }

    /// Evaluate one case. `heavy` cases are recorded on disk first, so that an abort
    /// (stack overflow, allocation failure) or a hang names its input.
    pub fn check<T: Serialize + Hash>(
        &mut self,
        kind: &str,
        case: &T,
        trivial: bool,
        heavy: bool,
        f: impl FnOnce(&T) -> Result<(), String>,
    ) {
        if self.failed() {
            return;
        }
        self.evaluations += 1;
        *self.per_kind.entry(kind.to_string()).or_insert(0) += 1;
        let mut h = DefaultHasher::new();
        kind.hash(&mut h);
        case.hash(&mut h);
        if self.seen.insert(h.finish()) && !trivial {
            self.nontrivial += 1;
        }
        if heavy {
            let rec = Failure { kind: kind.into(), message: "the process died or hung on this case".into(), case: serde_json::to_value(case).unwrap() };
            let _ = std::fs::write(&self.current_file, serde_json::to_vec(&rec).unwrap());
            *CURRENT.lock().unwrap() = Some(rec);
        } else {
            *CURRENT.lock().unwrap() = None;
        }
        START.store(now_ms(), Ordering::SeqCst);
        let res = catch_unwind(AssertUnwindSafe(|| f(case)));
        START.store(0, Ordering::SeqCst);
        if heavy {
            let _ = std::fs::remove_file(&self.current_file);
        }
        let message = match res {
            Ok(Ok(())) => {
                let n = self.per_kind[kind];
                if n.is_power_of_two() && self.samples.len() < 12 {
                    let mut v = serde_json::json!({"kind": kind, "case": case});
                    shorten(&mut v);
                    self.samples.push(v);
                }
                return;
            }
            Ok(Err(m)) => m,
            Err(p) => format!("panic: {}", panic_text(&p)),
        };
        self.failure = Some(Failure { kind: kind.into(), message, case: serde_json::to_value(case).unwrap() });
    }
}

fn shorten(v: &mut serde_json::Value) {
    match v {
        serde_json::Value::String(s) if s.len() > 120 => {
            let mut i = 100;
            while !s.is_char_boundary(i) {
                i -= 1
            }
            *s = format!("{}...({} bytes)", &s[..i], s.len())
        }
        serde_json::Value::Array(a) => {
            let n = a.len();
            if n > 24 {
                a.truncate(20);
                a.push(serde_json::json!(format!("...({} items)", n)))
            }
            a.iter_mut().for_each(shorten)
        }
        serde_json::Value::Object(o) => o.values_mut().for_each(shorten),
        _ => {}
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.chars().take(600).collect()
    } else {
        "?".into()
    }
}

/// Exits with status 3 when a case does not end; the caller names it from the current file.
pub fn watchdog(current_file: PathBuf) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(1));
        let s = START.load(Ordering::SeqCst);
        if s != 0 && now_ms().saturating_sub(s) > CASE_LIMIT_S * 1000 {
            if let Ok(cur) = CURRENT.lock() {
                if let Some(rec) = cur.as_ref() {
                    let _ = std::fs::write(&current_file, serde_json::to_vec(rec).unwrap());
                }
            }
            eprintln!("watchdog: a case did not end within {}s", CASE_LIMIT_S);
            std::process::exit(3);
        }
    });
}

pub fn ensure(cond: bool, msg: impl FnOnce() -> String) -> Result<(), String> {
    if cond { Ok(()) } else { Err(msg()) }
}

/// Bytes as a JSON-friendly lossless string: printable ASCII as is, `\xNN` otherwise.
pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    for &c in b {
        match c {
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s
}
pub fn short(b: &[u8]) -> String {
    if b.len() > 60 { format!("{}..({} bytes)", show(&b[..40]), b.len()) } else { show(b) }
}

/// A compact description of data: a list of (bytes, repeat).
#[derive(Serialize, serde::Deserialize, Hash, Clone, Debug, PartialEq, Eq)]
pub struct Data(pub Vec<(Vec<u8>, usize)>);
impl Data {
    pub fn lit(b: &[u8]) -> Data {
        Data(vec![(b.to_vec(), 1)])
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = Vec::new();
        for (b, n) in &self.0 {
            for _ in 0..*n {
                v.extend_from_slice(b)
            }
        }
        v
    }
}
