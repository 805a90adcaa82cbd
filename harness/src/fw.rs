//! Case framework: boundary to the system under test, counters, verdicts.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Debug, Clone)]
pub enum Fail {
    /// The system under test broke the property: message and input.
    Viol(String),
}
pub type R<X = ()> = Result<X, Fail>;

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Call into magog. A panic there is a violation; what panics outside is the harness's fault.
pub fn sut<X>(what: &str, f: impl FnOnce() -> X) -> R<X> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(Fail::Viol(format!("{} panicked: {}", what, last_panic()))),
    }
}

pub fn viol<X>(msg: impl Into<String>) -> R<X> {
    Err(Fail::Viol(msg.into()))
}

/// Add the input to a failure.
pub fn with_input<X>(r: R<X>, input: impl FnOnce() -> String) -> R<X> {
    r.map_err(|Fail::Viol(m)| {
        let mut s = input();
        if s.len() > 20000 {
            let mut k = 20000;
            while !s.is_char_boundary(k) {
                k -= 1;
            }
            s.truncate(k);
            s.push_str(" ...");
        }
        Fail::Viol(format!("{}\n  input: {}", m, s))
    })
}

#[derive(Default)]
pub struct Ctx {
    pub cats: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    /// Observed schedules (completion orders) of concurrent cases.
    pub schedules: HashSet<u64>,
    pub evals: u64,
    pub calls: u64,
    pub samples: Vec<String>,
    /// Largest value seen of a measured quantity.
    pub maxes: BTreeMap<&'static str, f64>,
    pub want_sample: bool,
    pub thorough: bool,
}

impl Ctx {
    pub fn max(&mut self, name: &'static str, x: f64) {
        let e = self.maxes.entry(name).or_insert(x);
        *e = e.max(x);
    }
    pub fn cat(&mut self, name: &'static str) {
        *self.cats.entry(name).or_insert(0) += 1;
    }
    pub fn cat_n(&mut self, name: &'static str, n: u64) {
        *self.cats.entry(name).or_insert(0) += n;
    }
    /// One judged observation.
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn nontrivial(&mut self, h: u64) {
        // bounded memory: beyond this the count is a lower bound
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push_str(" ...");
            }
            self.samples.push(s);
            self.want_sample = false;
        }
    }
}

/// FNV-like incremental hash with finaliser, for counting distinct inputs.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new(tag: u64) -> H {
        H(0xcbf2_9ce4_8422_2325 ^ tag.wrapping_mul(0x9E37_79B9_7F4A_7C15))
    }
    pub fn u(&mut self, x: u64) -> &mut Self {
        let mut z = self.0 ^ x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        self.0 = z ^ (z >> 31);
        self
    }
    pub fn i(&mut self, x: i64) -> &mut Self {
        self.u(x as u64)
    }
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Categories that must have been observed at least so often.
    pub floors: &'static [(&'static str, u64)],
    pub rule: &'static str,
    pub case: fn(u64, &mut crate::rng::Rng, &mut Ctx) -> R,
}
